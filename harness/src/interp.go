//go:build go1.22

package main

import (
	"errors"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"time"

	applications "github.com/steve-care-software/rodkina/libs/interpreters/applications"
	"github.com/steve-care-software/rodkina/libs/interpreters/domain/instructions"
	i_apps "github.com/steve-care-software/rodkina/libs/interpreters/domain/instructions/applications"
	i_atts "github.com/steve-care-software/rodkina/libs/interpreters/domain/instructions/attachments"
	i_mods "github.com/steve-care-software/rodkina/libs/interpreters/domain/instructions/modules"
	i_params "github.com/steve-care-software/rodkina/libs/interpreters/domain/instructions/parameters"
	"github.com/steve-care-software/rodkina/libs/interpreters/domain/programs"
	p_mods "github.com/steve-care-software/rodkina/libs/interpreters/domain/programs/modules"
)

// The model of a script of instructions, a reference interpreter that runs it
// directly (variables hold values, applications hold what was attached to
// them), and the conversion to the real instances.

type iKind int

const (
	kMod   iKind = iota // module idx as name
	kApp                // application name from module a
	kIn                 // input parameter name
	kOut                // output parameter name
	kVar                // name = variable a
	kConst              // name = constant
	kSub                // name = sub instructions
	kRun                // name = execution of a
	kAtt                // attach variable name to application a at local idx
	kExec               // execute application a
)

type iIns struct {
	kind iKind
	name string
	a    string
	idx  uint
	data []byte
	sub  []*iIns
}

func (i *iIns) String() string {
	switch i.kind {
	case kMod:
		return fmt.Sprintf("module @%d %s", i.idx, i.name)
	case kApp:
		return fmt.Sprintf("application %s %s", i.a, i.name)
	case kIn:
		return "-> " + i.name
	case kOut:
		return "<- " + i.name
	case kVar:
		return i.name + " = $" + i.a
	case kConst:
		return fmt.Sprintf("%s = %q", i.name, i.data)
	case kSub:
		return i.name + " = {" + scriptString(i.sub) + "}"
	case kRun:
		return i.name + " = execute " + i.a
	case kAtt:
		return fmt.Sprintf("attach %s:%d %s", i.name, i.idx, i.a)
	}
	return "execute " + i.a
}

func scriptString(l []*iIns) string {
	var b strings.Builder
	for _, i := range l {
		b.WriteString(i.String())
		b.WriteString("; ")
	}
	return b.String()
}

// instructionsOf builds the real instances. Names are given fresh buffers.
func instructionsOf(l []*iIns) instructions.Instructions {
	list := []instructions.Instruction{}
	bytesOf := func(s string) []byte { return append([]byte{}, s...) }
	for _, i := range l {
		b := instructions.NewInstructionBuilder().Create()
		assign := func(v instructions.Value, err error) {
			if err != nil {
				panic("harness: " + err.Error())
			}
			as, err := instructions.NewAssignmentBuilder().Create().WithVariable(bytesOf(i.name)).WithValue(v).Now()
			if err != nil {
				panic("harness: " + err.Error())
			}
			b.WithAssignment(as)
		}
		switch i.kind {
		case kMod:
			m, _ := i_mods.NewBuilder().Create().WithIndex(i.idx).WithName(bytesOf(i.name)).Now()
			b.WithModule(m)
		case kApp:
			m, _ := i_apps.NewBuilder().Create().WithModule(bytesOf(i.a)).WithName(bytesOf(i.name)).Now()
			b.WithApplication(m)
		case kIn:
			m, _ := i_params.NewBuilder().Create().WithName(bytesOf(i.name)).IsInput().Now()
			b.WithParameter(m)
		case kOut:
			m, _ := i_params.NewBuilder().Create().WithName(bytesOf(i.name)).Now()
			b.WithParameter(m)
		case kVar:
			assign(instructions.NewValueBuilder().Create().WithVariable(bytesOf(i.a)).Now())
		case kConst:
			assign(instructions.NewValueBuilder().Create().WithConstant(append([]byte{}, i.data...)).Now())
		case kSub:
			assign(instructions.NewValueBuilder().Create().WithInstructions(instructionsOf(i.sub)).Now())
		case kRun:
			assign(instructions.NewValueBuilder().Create().WithExecution(bytesOf(i.a)).Now())
		case kAtt:
			v, _ := i_atts.NewVariableBuilder().Create().WithCurrent(bytesOf(i.name)).WithTarget(i.idx).Now()
			m, _ := i_atts.NewBuilder().Create().WithVariable(v).WithApplication(bytesOf(i.a)).Now()
			b.WithAttachment(m)
		case kExec:
			b.WithExecution(bytesOf(i.a))
		}
		ins, err := b.Now()
		if err != nil {
			panic("harness: " + err.Error())
		}
		list = append(list, ins)
	}
	out, err := instructions.NewBuilder().Create().WithList(list).Now()
	if err != nil {
		panic("harness: " + err.Error())
	}
	return out
}

// ------------------------------------------------------------- the modules

// machine is a set of modules that record their calls.
type machine struct {
	mu    sync.Mutex
	n     int // calls so far
	log   []string
	fails map[uint]bool // modules that always fail
	nils  map[uint]bool // modules that give nil
	pure  bool          // results depend on the parameters alone, nothing is recorded
	keep  bool          // the modules keep the parameters they were given
	kept  []keptParams
}

// keptParams are parameters a module kept, and what they were.
type keptParams struct {
	params map[uint]interface{}
	was    string
}

func showParams(p map[uint]interface{}) string {
	keys := []int{}
	for k := range p {
		keys = append(keys, int(k))
	}
	sort.Ints(keys)
	args := []string{}
	for _, k := range keys {
		args = append(args, fmt.Sprintf("%d:%s", k, show(p[uint(k)])))
	}
	return strings.Join(args, ",")
}

// changed tells which kept parameters are no longer what they were.
func (m *machine) changed() string {
	for i, k := range m.kept {
		if now := showParams(k.params); now != k.was {
			return fmt.Sprintf("the parameters of call %d were %s, they became %s", i, k.was, now)
		}
	}
	return ""
}

var errModule = errors.New("the module failed as planned")

func (m *machine) call(mod uint, params map[uint]interface{}) (interface{}, error) {
	desc := fmt.Sprintf("m%d(%s)", mod, showParams(params))
	if m.pure {
		if m.fails[mod] {
			return nil, errModule
		}
		return hashName(desc), nil
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	m.n++
	m.log = append(m.log, desc)
	if m.fails[mod] {
		return nil, errModule
	}
	if m.nils[mod] {
		return nil, nil
	}
	return fmt.Sprintf("r%d", m.n), nil
}

func hashName(s string) string {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return fmt.Sprintf("h%016x", h)
}

func (m *machine) modules(idxs []uint) p_mods.Modules {
	list := []p_mods.Module{}
	for _, i := range idxs {
		i := i
		mod, err := p_mods.NewModuleBuilder().Create().WithIndex(i).WithFunc(func(input map[uint]interface{}) (interface{}, error) {
			res, err := m.call(i, input)
			// a module owns the parameters it is given:
			if m.keep && !m.pure {
				m.mu.Lock()
				defer m.mu.Unlock()
				m.kept = append(m.kept, keptParams{input, showParams(input)})
				return res, err
			}
			for k := range input {
				delete(input, k)
			}
			input[99] = "left over"
			return res, err
		}).Now()
		if err != nil {
			panic("harness: " + err.Error())
		}
		list = append(list, mod)
	}
	out, err := p_mods.NewBuilder().Create().WithList(list).Now()
	if err != nil {
		panic("harness: " + err.Error())
	}
	return out
}

// show writes a value in full.
func show(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case []byte:
		return fmt.Sprintf("%q", x)
	case string:
		return "'" + x + "'"
	case []interface{}:
		p := []string{}
		for _, e := range x {
			p = append(p, show(e))
		}
		return "[" + strings.Join(p, ",") + "]"
	}
	return fmt.Sprintf("%T(%v)", v, v)
}

func showAll(l []interface{}) string { return show(l) }

// -------------------------------------------------------- the reference

// iCheck says why a script is not a program, "" if it is one.
func iCheck(l []*iIns, mods map[uint]bool, name func([]byte) string) string {
	key := func(s string) string { return name([]byte(s)) }
	loaded, apps, vals, params := map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]iKind{}
	steps := 0
	for n, i := range l {
		bad := func(f string, a ...interface{}) string { return fmt.Sprintf("%d: ", n) + fmt.Sprintf(f, a...) }
		k, a := key(i.name), key(i.a)
		switch i.kind {
		case kMod:
			if !mods[i.idx] {
				return bad("unknown module")
			}
			if loaded[k] {
				return bad("module declared twice")
			}
			loaded[k] = true
		case kApp:
			if apps[k] {
				return bad("application declared twice")
			}
			if !loaded[a] {
				return bad("undeclared module")
			}
			apps[k] = true
		case kIn, kOut:
			if _, ok := params[k]; ok {
				return bad("parameter declared twice")
			}
			params[k] = i.kind
		case kVar:
			p, ok := params[a]
			if !ok {
				return bad("undeclared parameter assigned")
			}
			if p == kOut {
				return bad("output parameter assigned")
			}
		case kSub:
			if s := iCheck(i.sub, mods, name); s != "" {
				return bad("%s", s)
			}
		case kRun:
			if !apps[a] {
				return bad("undeclared application assigned")
			}
		case kAtt:
			if !vals[k] && params[k] != kIn {
				if _, ok := params[k]; ok {
					return bad("output parameter attached")
				}
				return bad("undeclared variable attached")
			}
			if !apps[a] {
				return bad("attached to an undeclared application")
			}
		case kExec:
			if !apps[a] {
				return bad("undeclared application executed")
			}
		}
		if i.kind == kVar || i.kind == kConst || i.kind == kSub || i.kind == kRun {
			vals[k] = true
			steps++
		}
		if i.kind == kExec {
			steps++
		}
	}
	if steps == 0 {
		return "nothing to execute"
	}
	return ""
}

type iAtt struct {
	local uint
	input int // -1: value
	value interface{}
}

type iApp struct {
	mod  uint
	atts []iAtt
}

var errInput = errors.New("an input is missing")

// iRun runs a script that iCheck accepted.
func iRun(l []*iIns, input []interface{}, name func([]byte) string, m *machine) ([]interface{}, error) {
	key := func(s string) string { return name([]byte(s)) }
	loaded, apps, vals := map[string]uint{}, map[string]*iApp{}, map[string]interface{}{}
	inputs, outputs := map[string]int{}, map[string]bool{}
	out := []interface{}{}
	exec := func(a *iApp) (interface{}, error) {
		params := map[uint]interface{}{}
		for _, t := range a.atts {
			v := t.value
			if t.input >= 0 {
				if t.input >= len(input) {
					return nil, errInput
				}
				v = input[t.input]
			}
			params[t.local] = v
		}
		return m.call(a.mod, params)
	}
	for _, i := range l {
		k, a := key(i.name), key(i.a)
		var v interface{}
		var err error
		switch i.kind {
		case kMod:
			loaded[k] = i.idx
			continue
		case kApp:
			apps[k] = &iApp{mod: loaded[a]}
			continue
		case kIn:
			inputs[k] = len(inputs)
			continue
		case kOut:
			outputs[k] = true
			continue
		case kAtt:
			t := iAtt{local: i.idx, input: -1}
			if x, ok := vals[k]; ok {
				t.value = x
			} else {
				t.input = inputs[k]
			}
			apps[a].atts = append(apps[a].atts, t)
			continue
		case kExec:
			if _, err := exec(apps[a]); err != nil {
				return nil, err
			}
			continue
		case kVar:
			if inputs[a] >= len(input) {
				return nil, errInput
			}
			v = input[inputs[a]]
		case kConst:
			v = i.data
		case kSub:
			v, err = subRun(i.sub, input, name, m)
		case kRun:
			v, err = exec(apps[a])
		}
		if err != nil {
			return nil, err
		}
		vals[k] = v
		if outputs[k] {
			out = append(out, v)
		}
	}
	return out, nil
}

func subRun(l []*iIns, input []interface{}, name func([]byte) string, m *machine) (interface{}, error) {
	out, err := iRun(l, input, name, m)
	if err != nil {
		return nil, err
	}
	return out, nil
}

// ---------------------------------------------------------- the generator

type iGen struct {
	r     *rand.Rand
	mods  []uint
	wrong int // percent of instructions made without regard to what is declared
}

var iNames = []string{"a", "b", "c", "d", "e", "f", "A", "B", "C", "a1", "a2", "b1", "", " a", "é", "a\x00b", "\xff"}

// local is the place of a parameter
func (g *iGen) local() uint {
	if g.r.Intn(8) == 0 {
		return []uint{8, 63, 64, 127, 128, 255, 256, 257, 65535, 65536, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<63 - 1, 1 << 63, 1<<64 - 1}[g.r.Intn(18)]
	}
	return uint(g.r.Intn(4))
}

func (g *iGen) name() string { return iNames[g.r.Intn(len(iNames))] }

func (g *iGen) script(n, depth int, inputs int) []*iIns {
	out := []*iIns{}
	var mods, apps, ins, vals []string
	used := map[string]bool{}
	fresh := func(kind string) string {
		for t := 0; t < 40; t++ {
			s := g.name()
			if g.r.Intn(3) == 0 {
				s += fmt.Sprint(g.r.Intn(30))
			}
			if !used[kind+s] {
				used[kind+s] = true
				return s
			}
		}
		s := fmt.Sprintf("n%d", len(out))
		used[kind+s] = true
		return s
	}
	pick := func(l []string) string {
		if len(l) == 0 || g.r.Intn(100) < g.wrong {
			return g.name()
		}
		return l[g.r.Intn(len(l))]
	}
	idx := func() uint {
		if g.r.Intn(100) < g.wrong {
			return uint(g.r.Intn(12))
		}
		return g.mods[g.r.Intn(len(g.mods))]
	}
	add := func(i *iIns) { out = append(out, i) }
	// what most scripts start with
	if g.wrong == 0 || g.r.Intn(3) > 0 {
		for k := 0; k < 1+g.r.Intn(2); k++ {
			s := fresh("m")
			add(&iIns{kind: kMod, name: s, idx: idx()})
			mods = append(mods, s)
		}
		for k := 0; k < 1+g.r.Intn(3); k++ {
			s := fresh("a")
			add(&iIns{kind: kApp, name: s, a: pick(mods)})
			apps = append(apps, s)
		}
	}
	outs := []string{}
	for len(out) < n {
		kind := []iKind{kMod, kApp, kIn, kIn, kOut, kOut, kVar, kVar, kConst, kConst, kSub, kRun, kRun, kRun, kAtt, kAtt, kAtt, kAtt, kExec, kExec}[g.r.Intn(20)]
		target := func() string {
			switch g.r.Intn(4) {
			case 0:
				if len(vals) > 0 {
					return vals[g.r.Intn(len(vals))]
				}
			case 1, 2:
				if len(outs) > 0 {
					return outs[g.r.Intn(len(outs))]
				}
			}
			if g.r.Intn(12) == 0 && len(ins) > 0 {
				return ins[g.r.Intn(len(ins))]
			}
			return g.name()
		}
		free := g.wrong > 0 && g.r.Intn(100) < g.wrong
		switch kind {
		case kMod:
			s := fresh("m")
			if free {
				s = pick(mods)
			}
			add(&iIns{kind: kMod, name: s, idx: idx()})
			mods = append(mods, s)
		case kApp:
			if len(mods) == 0 && !free {
				continue
			}
			s := fresh("a")
			if free {
				s = pick(apps)
			}
			add(&iIns{kind: kApp, name: s, a: pick(mods)})
			apps = append(apps, s)
		case kIn, kOut:
			if kind == kIn && g.wrong == 0 && len(ins) >= inputs {
				continue
			}
			s := fresh("p")
			if free {
				s = pick(append(append([]string{}, ins...), outs...))
			}
			add(&iIns{kind: kind, name: s})
			if kind == kIn {
				ins = append(ins, s)
			} else {
				outs = append(outs, s)
			}
		case kVar:
			if len(ins) == 0 && !free {
				continue
			}
			s := target()
			add(&iIns{kind: kVar, name: s, a: pick(ins)})
			vals = append(vals, s)
		case kConst:
			s := target()
			d := make([]byte, g.r.Intn(4))
			g.r.Read(d)
			add(&iIns{kind: kConst, name: s, data: d})
			vals = append(vals, s)
		case kSub:
			if depth == 0 {
				continue
			}
			s := target()
			add(&iIns{kind: kSub, name: s, sub: g.script(3+g.r.Intn(8), depth-1, inputs)})
			vals = append(vals, s)
		case kRun:
			if len(apps) == 0 && !free {
				continue
			}
			s := target()
			add(&iIns{kind: kRun, name: s, a: pick(apps)})
			vals = append(vals, s)
		case kAtt:
			from := vals
			if g.r.Intn(3) == 0 {
				from = ins
			}
			if (len(apps) == 0 || len(from) == 0) && !free {
				continue
			}
			a := pick(apps)
			add(&iIns{kind: kAtt, name: pick(from), a: a, idx: g.local()})
			if g.r.Intn(40) == 0 {
				for k := 4 + g.r.Intn(30); k > 0; k-- {
					add(&iIns{kind: kAtt, name: pick(from), a: a, idx: g.local()})
				}
			}
		case kExec:
			if len(apps) == 0 && !free {
				continue
			}
			add(&iIns{kind: kExec, a: pick(apps)})
		}
	}
	return out
}

// the functions that turn names into strings
var nameFns = []struct {
	name string
	fn   func([]byte) string
}{
	{"as they are", func(n []byte) string { return string(n) }},
	{"in hexadecimal", func(n []byte) string { return fmt.Sprintf("%x", n) }},
	{"in lower case", func(n []byte) string { return strings.ToLower(string(n)) }},
	{"without digits", func(n []byte) string {
		return strings.Map(func(r rune) rune {
			if r >= '0' && r <= '9' {
				return -1
			}
			return r
		}, string(n))
	}},
	{"with a prefix", func(n []byte) string { return "$" + string(n) }},
}

// world is one case: modules, a script and how names are read.
type world struct {
	g     *iGen
	known map[uint]bool
	fn    func([]byte) string
	how   string
	app   applications.Application
}

func newScripts(c *Ctx, wrong int) *world {
	g := &iGen{r: c.R, wrong: wrong}
	w := &world{g: g, known: map[uint]bool{}}
	for len(g.mods) < 1+c.R.Intn(4) {
		i := uint(c.R.Intn(8))
		if !w.known[i] {
			w.known[i] = true
			g.mods = append(g.mods, i)
		}
	}
	n := nameFns[c.R.Intn(2)]
	if c.R.Intn(4) == 0 {
		n = nameFns[c.R.Intn(len(nameFns))]
	}
	w.fn, w.how = n.fn, n.name
	w.app = applications.NewApplication(n.fn)
	return w
}

// valid gives a script that is a program.
func (w *world) valid(n, depth, inputs int) []*iIns {
	for {
		l := w.g.script(n, depth, inputs)
		if iCheck(l, w.known, w.fn) == "" {
			return l
		}
	}
}

func (w *world) machine(c *Ctx, fail bool) *machine {
	m := &machine{fails: map[uint]bool{}, nils: map[uint]bool{}}
	for _, i := range w.g.mods {
		if fail && c.R.Intn(4) == 0 {
			m.fails[i] = true
		} else if c.R.Intn(6) == 0 {
			m.nils[i] = true
		}
	}
	return m
}

func (m *machine) like() *machine { return &machine{fails: m.fails, nils: m.nils, pure: m.pure} }

func (w *world) compile(c *Ctx, l []*iIns, mods p_mods.Modules) programs.Program {
	p, err := w.tryCompile(c, l, mods)
	if err != nil {
		c.Violate("refused", "a valid program is refused: %v\nnames %s: %s", err, w.how, scriptString(l))
	}
	return p
}

func (w *world) tryCompile(c *Ctx, l []*iIns, mods p_mods.Modules) (programs.Program, error) {
	var p programs.Program
	var err error
	ins := instructionsOf(l)
	if pn, msg := Protect(func() { p, err = w.app.Compile(mods, ins) }); pn {
		c.Violate("panic:"+panicSite(msg), "compiling panicked: %s\nnames %s: %s", msg, w.how, scriptString(l))
	}
	if (err == nil) == (p == nil) {
		c.Violate("compile-result", "compiling gave the program %v and the error %v\nnames %s: %s", p, err, w.how, scriptString(l))
	}
	return p, err
}

func (w *world) run(c *Ctx, p programs.Program, input []interface{}, l []*iIns) ([]interface{}, error) {
	var out []interface{}
	var err error
	if pn, msg := Protect(func() { out, err = w.app.Execute(input, p) }); pn {
		c.Violate("panic:"+panicSite(msg), "executing panicked: %s\nnames %s: %s", msg, w.how, scriptString(l))
	}
	return out, err
}

func genInput(r *rand.Rand, n int) []interface{} {
	out := []interface{}{}
	for i := 0; i < n; i++ {
		switch r.Intn(4) {
		case 0:
			out = append(out, i*7)
		case 1:
			out = append(out, []byte{byte(i), 'x'})
		case 2:
			out = append(out, nil)
		default:
			out = append(out, fmt.Sprintf("input%d", i))
		}
	}
	return out
}

func inputsOf(l []*iIns) int {
	n, max := 0, 0
	for _, i := range l {
		if i.kind == kIn {
			n++
		}
		if i.kind == kSub {
			if m := inputsOf(i.sub); m > max {
				max = m
			}
		}
	}
	if n > max {
		return n
	}
	return max
}

// ------------------------------------------------------------------- I01

// crowd is a script with hundreds of names of each kind
func (w *world) crowd(c *Ctx) []*iIns {
	w.fn, w.how = nameFns[0].fn, nameFns[0].name
	w.app = applications.NewApplication(w.fn)
	n := 200 + c.R.Intn(200)
	l := []*iIns{}
	for k := 0; k < n; k++ {
		l = append(l, &iIns{kind: kMod, name: fmt.Sprintf("m%d", k), idx: w.g.mods[c.R.Intn(len(w.g.mods))]},
			&iIns{kind: kApp, name: fmt.Sprintf("a%d", k), a: fmt.Sprintf("m%d", c.R.Intn(k+1))},
			&iIns{kind: kIn, name: fmt.Sprintf("i%d", k)}, &iIns{kind: kOut, name: fmt.Sprintf("o%d", k)})
	}
	for k := 0; k < n; k++ {
		in, a, o := fmt.Sprintf("i%d", c.R.Intn(n)), fmt.Sprintf("a%d", c.R.Intn(n)), fmt.Sprintf("o%d", k)
		switch c.R.Intn(4) {
		case 0:
			l = append(l, &iIns{kind: kVar, name: o, a: in})
		case 1:
			l = append(l, &iIns{kind: kConst, name: o, data: []byte(o)})
		default:
			l = append(l, &iIns{kind: kAtt, name: in, a: a, idx: uint(c.R.Intn(3))}, &iIns{kind: kRun, name: o, a: a})
		}
		if k == n/2 {
			l = append(l, &iIns{kind: kVar, name: "all", a: fmt.Sprintf("i%d", n-1)}, &iIns{kind: kExec, a: a})
		}
	}
	return append(l, &iIns{kind: kExec, a: "a0"})
}

func i01(c *Ctx) {
	for k := 0; k < 25; k++ {
		w := newScripts(c, 0)
		m := w.machine(c, false)
		mods := m.modules(w.g.mods)
		l := w.valid(4+c.R.Intn(30), 1+c.R.Intn(3), 3)
		if k == 0 && c.Index%160 == 7 {
			l = w.crowd(c)
			c.Count("scripts with hundreds of names", 1)
		}
		p := w.compile(c, l, mods)
		if len(m.log) != 0 {
			c.Violate("compile-executes", "compiling executed modules: %v\n%s", m.log, scriptString(l))
		}
		input := genInput(c.R, inputsOf(l)+c.R.Intn(2))
		ref := m.like()
		want, werr := iRun(l, input, w.fn, ref)
		got, err := w.run(c, p, input, l)
		if err != nil || werr != nil {
			c.Violate("error", "executing gives the error %v, want %v\nnames %s: %s", err, werr, w.how, scriptString(l))
		}
		if showAll(got) != showAll(want) {
			c.Violate("outputs", "the outputs are %s, want %s\ninput %s, names %s: %s", showAll(got), showAll(want), showAll(input), w.how, scriptString(l))
		}
		c.Count("programs executed", 1)
		c.Count("outputs compared", len(want))
		c.Distinct(scriptString(l))
		c.Sample("%s gives %s", scriptString(l), showAll(want))
	}
}

// ------------------------------------------------------------------- I02

func i02(c *Ctx) {
	if c.Index%8 == 0 {
		chain(c)
	}
	for k := 0; k < 25; k++ {
		w := newScripts(c, 0)
		m := w.machine(c, false)
		m.keep = coin(c.R)
		mods := m.modules(w.g.mods)
		l := w.valid(8+c.R.Intn(40), c.R.Intn(3), 3)
		p := w.compile(c, l, mods)
		input := genInput(c.R, inputsOf(l))
		ref := m.like()
		iRun(l, input, w.fn, ref)
		w.run(c, p, input, l)
		if d := m.changed(); d != "" {
			c.Violate("kept-parameters", "what a module kept changed: %s\ninput %s, names %s: %s", d, showAll(input), w.how, scriptString(l))
		}
		c.Count("parameters kept by modules", len(m.kept))
		if a, b := strings.Join(m.log, "\n"), strings.Join(ref.log, "\n"); a != b {
			c.Violate("calls", "the modules were called with:\n%s\nwant:\n%s\ninput %s, names %s: %s", a, b, showAll(input), w.how, scriptString(l))
		}
		c.Count("module calls compared", len(ref.log))
		c.Distinct(scriptString(l))
		c.Sample("%s calls %s", scriptString(l), strings.Join(ref.log, " "))
	}
}

// chain: each application gets the value of the one before it twice.
func chain(c *Ctx) {
	w := newScripts(c, 0)
	w.fn = nameFns[0].fn
	w.app = applications.NewApplication(w.fn)
	m := w.machine(c, false)
	mods := m.modules(w.g.mods)
	n := 10 + c.R.Intn(60)
	l := []*iIns{{kind: kMod, name: "m", idx: w.g.mods[0]}, {kind: kOut, name: "last"}, {kind: kConst, name: "v0", data: []byte("x")}}
	for i := 1; i <= n; i++ {
		v := fmt.Sprintf("v%d", i)
		if i == n {
			v = "last"
		}
		app := fmt.Sprintf("a%d", i)
		prev := fmt.Sprintf("v%d", i-1)
		l = append(l, &iIns{kind: kApp, name: app, a: "m"},
			&iIns{kind: kAtt, name: prev, a: app, idx: 0}, &iIns{kind: kAtt, name: prev, a: app, idx: 1},
			&iIns{kind: kRun, name: v, a: app})
	}
	p := w.compile(c, l, mods)
	ref := m.like()
	want, _ := iRun(l, nil, w.fn, ref)
	// stop a program that executes far too often, instead of waiting for it
	done := make(chan string, 1)
	go func() {
		got, err := w.app.Execute(nil, p)
		done <- fmt.Sprint(showAll(got), err)
	}()
	select {
	case s := <-done:
		if want := fmt.Sprint(showAll(want), nil); s != want {
			c.Violate("chain-outputs", "a chain of %d executions gives %s, want %s", n, s, want)
		}
	case <-time.After(20 * time.Second):
		m.mu.Lock()
		calls := m.n
		m.mu.Unlock()
		c.Violate("chain-calls", "a chain of %d executions made %d calls and did not end", n, calls)
	}
	if m.n != n {
		c.Violate("chain-calls", "a chain of %d executions made %d calls", n, m.n)
	}
	c.Count("chains of executions", 1)
}

// ------------------------------------------------------------------- I03

func i03(c *Ctx) {
	for k := 0; k < 40; k++ {
		w := newScripts(c, []int{0, 5, 20, 60}[c.R.Intn(4)])
		m := w.machine(c, false)
		mods := m.modules(w.g.mods)
		l := w.g.script(1+c.R.Intn(20), c.R.Intn(3), 3)
		if coin(c.R) {
			// one change to a valid program
			l = w.spoil(c)
		}
		why := iCheck(l, w.known, w.fn)
		_, err := w.tryCompile(c, l, mods)
		if (err != nil) != (why != "") {
			c.Violate("verdict", "compiling gives the error %v, but the reference says %q\nnames %s: %s", err, why, w.how, scriptString(l))
		}
		if len(m.log) != 0 {
			c.Violate("compile-executes", "compiling executed modules: %v\n%s", m.log, scriptString(l))
		}
		if why == "" {
			c.Count("scripts compiled", 1)
		} else {
			c.Count("scripts refused: "+strings.TrimLeft(why, "0123456789: "), 1)
		}
		c.Distinct(scriptString(l))
		c.Sample("%s: %s", scriptString(l), why)
	}
}

// spoil gives a valid program with one thing changed: two instructions
// swapped, one removed, doubled, or a name changed.
func (w *world) spoil(c *Ctx) []*iIns {
	wrong := w.g.wrong
	w.g.wrong = 0
	l := w.valid(6+c.R.Intn(16), c.R.Intn(2), 3)
	w.g.wrong = wrong
	out := append([]*iIns{}, l...)
	i := c.R.Intn(len(out))
	switch c.R.Intn(5) {
	case 0:
		j := c.R.Intn(len(out))
		out[i], out[j] = out[j], out[i]
	case 1:
		if len(out) > 1 {
			out = append(out[:i:i], out[i+1:]...)
		}
	case 2:
		j := i + c.R.Intn(len(out)-i) + 1
		out = append(append(append([]*iIns{}, out[:j]...), out[i]), out[j:]...)
	case 3:
		x := *out[i]
		x.name = w.g.name()
		out[i] = &x
	case 4:
		x := *out[i]
		x.a = w.g.name()
		out[i] = &x
	}
	return out
}

// ------------------------------------------------------------------- I04

func i04(c *Ctx) {
	for k := 0; k < 30; k++ {
		w := newScripts(c, 0)
		m := w.machine(c, true)
		mods := m.modules(w.g.mods)
		l := w.valid(6+c.R.Intn(30), c.R.Intn(3), 4)
		p := w.compile(c, l, mods)
		n := inputsOf(l)
		if n > 0 && coin(c.R) {
			n = c.R.Intn(n)
		}
		input := genInput(c.R, n)
		ref := m.like()
		want, werr := iRun(l, input, w.fn, ref)
		got, err := w.run(c, p, input, l)
		if (err != nil) != (werr != nil) {
			c.Violate("verdict", "executing gives the error %v, want %v\n%d inputs, failing modules %v, names %s: %s", err, werr, n, m.fails, w.how, scriptString(l))
		}
		if a, b := strings.Join(m.log, "\n"), strings.Join(ref.log, "\n"); a != b {
			c.Violate("calls", "the modules were called with:\n%s\nwant, until the error %v:\n%s\n%d inputs, names %s: %s", a, werr, b, n, w.how, scriptString(l))
		}
		if err != nil && len(got) != 0 {
			c.Violate("output-and-error", "a failed program gives the outputs %s and the error %v\n%s", showAll(got), err, scriptString(l))
		}
		if err == nil && showAll(got) != showAll(want) {
			c.Violate("outputs", "the outputs are %s, want %s\n%s", showAll(got), showAll(want), scriptString(l))
		}
		switch werr {
		case nil:
			c.Count("programs without a failure", 1)
		case errInput:
			c.Count("programs stopped by a missing input", 1)
		default:
			c.Count("programs stopped by a module", 1)
		}
		if werr != nil {
			c.Distinct(fmt.Sprint(scriptString(l), m.fails, n))
			c.Sample("%s with %d inputs, failing modules %v: %v after %d calls", scriptString(l), n, m.fails, werr, len(ref.log))
		}
	}
}

// ------------------------------------------------------------------- I05

func i05(c *Ctx) {
	w := newScripts(c, 0)
	m := w.machine(c, true)
	m.pure = true
	mods := m.modules(w.g.mods)
	type job struct {
		l     []*iIns
		ins   instructions.Instructions
		p     programs.Program
		input []interface{}
		shape string
		want  string
	}
	jobs := []*job{}
	for k := 0; k < 6; k++ {
		l := w.valid(6+c.R.Intn(25), c.R.Intn(3), 3)
		j := &job{l: l, ins: instructionsOf(l), input: genInput(c.R, inputsOf(l))}
		var err error
		if pn, msg := Protect(func() { j.p, err = w.app.Compile(mods, j.ins) }); pn || err != nil {
			c.Violate("refused", "a valid program is refused: %v %s\n%s", err, msg, scriptString(l))
		}
		j.shape = programString(j.p)
		if k%2 == 0 { // one nothing was done with yet
			if j.p, err = w.app.Compile(mods, instructionsOf(l)); err != nil {
				c.Violate("refused", "a valid program is refused the second time: %v\n%s", err, scriptString(l))
			}
		}
		out, err := iRun(l, j.input, w.fn, m.like())
		j.want = fmt.Sprint(showAll(out), err != nil)
		if err != nil {
			j.want = "error"
		}
		jobs = append(jobs, j)
	}
	result := func(j *job) string {
		out, err := w.app.Execute(j.input, j.p)
		if err != nil {
			return "error"
		}
		s := fmt.Sprint(showAll(out), false)
		// the caller owns the outputs:
		for i := range out {
			out[i] = "overwritten"
		}
		return s
	}
	const workers = 6
	errs := make(chan string, workers*64)
	begin := make(chan struct{})
	var wg sync.WaitGroup
	for g := 0; g < workers; g++ {
		order := c.R.Perm(len(jobs))
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					errs <- fmt.Sprintf("panic: %v", r)
				}
			}()
			<-begin
			for _, i := range order {
				j := jobs[i]
				if s := result(j); s != j.want {
					errs <- fmt.Sprintf("executing with others gives %s, want %s: %s", s, j.want, scriptString(j.l))
				}
				if (g+i)%3 == 0 {
					p, err := w.app.Compile(mods, j.ins)
					if err != nil {
						errs <- fmt.Sprintf("compiling again fails: %v: %s", err, scriptString(j.l))
					} else if s := programString(p); s != j.shape {
						errs <- fmt.Sprintf("compiling again gives another program:\n%s\nbefore\n%s\n%s", s, j.shape, scriptString(j.l))
					}
				}
			}
		}(g)
	}
	close(begin)
	wg.Wait()
	close(errs)
	for e := range errs {
		c.Violate("concurrent", "%s", e)
	}
	for _, j := range jobs {
		if s := programString(j.p); s != j.shape {
			c.Violate("program-changed", "a program changed when others were compiled and executed:\n%s\nbefore\n%s\n%s", s, j.shape, scriptString(j.l))
		}
		if s := result(j); s != j.want {
			c.Violate("repeat", "executing again gives %s, want %s: %s", s, j.want, scriptString(j.l))
		}
		c.Distinct(scriptString(j.l))
	}
	c.Count("concurrent executions", workers*len(jobs))
	c.Sample("%d goroutines execute and compile %d programs", workers, len(jobs))
}

// programString writes a program out in full.
func programString(p programs.Program) string {
	var b strings.Builder
	ids := map[programs.Value]int{}
	var val func(v programs.Value)
	var app func(a programs.Application)
	app = func(a programs.Application) {
		fmt.Fprintf(&b, "app%d(m%d", a.Index(), a.Module().Index())
		if a.HasAttachments() {
			for _, t := range a.Attachments().List() {
				fmt.Fprintf(&b, " %d:", t.Local())
				val(t.Value())
			}
		}
		b.WriteString(")")
	}
	val = func(v programs.Value) {
		if id, ok := ids[v]; ok {
			fmt.Fprintf(&b, "v%d", id)
			return
		}
		n := 0
		if v.IsInput() {
			n++
			fmt.Fprintf(&b, "input%d", *v.Input())
		}
		if v.IsConstant() {
			n++
			fmt.Fprintf(&b, "%q", v.Constant())
		}
		if v.IsProgram() {
			n++
			b.WriteString("{" + programString(v.Program()) + "}")
		}
		if v.IsExecution() {
			n++
			app(v.Execution())
		}
		if n != 1 {
			b.WriteString("<not one kind>")
		}
	}
	for i, ins := range p.Instructions().List() {
		if ins.IsValue() == ins.IsExecution() {
			b.WriteString("<not one kind>")
		}
		if ins.IsValue() {
			fmt.Fprintf(&b, "v%d=", i)
			val(ins.Value())
			ids[ins.Value()] = i
		} else {
			app(ins.Execution())
		}
		b.WriteString("; ")
	}
	if p.HasOutputs() {
		fmt.Fprintf(&b, "-> %v", p.Outputs())
	}
	return b.String()
}

// refProgram writes out the program a valid script compiles to.
func refProgram(l []*iIns, name func([]byte) string) string {
	key := func(s string) string { return name([]byte(s)) }
	type ap struct {
		idx  int
		mod  uint
		atts string
	}
	mods, apps, vals, inputs, outs := map[string]uint{}, map[string]*ap{}, map[string]string{}, map[string]int{}, map[string]bool{}
	var b strings.Builder
	outputs := []uint{}
	n := uint(0)
	appString := func(a *ap) string { return fmt.Sprintf("app%d(m%d%s)", a.idx, a.mod, a.atts) }
	for _, i := range l {
		k, a := key(i.name), key(i.a)
		v := ""
		switch i.kind {
		case kMod:
			mods[k] = i.idx
		case kApp:
			apps[k] = &ap{idx: len(apps), mod: mods[a]}
		case kIn:
			inputs[k] = len(inputs)
		case kOut:
			outs[k] = true
		case kAtt:
			x, ok := vals[k]
			if !ok {
				x = fmt.Sprintf("input%d", inputs[k])
			}
			apps[a].atts += fmt.Sprintf(" %d:%s", i.idx, x)
		case kExec:
			b.WriteString(appString(apps[a]) + "; ")
			n++
		case kVar:
			v = fmt.Sprintf("input%d", inputs[a])
		case kConst:
			v = fmt.Sprintf("%q", i.data)
		case kSub:
			v = "{" + refProgram(i.sub, name) + "}"
		case kRun:
			v = appString(apps[a])
		}
		if v != "" {
			vals[k] = fmt.Sprintf("v%d", n)
			fmt.Fprintf(&b, "v%d=%s; ", n, v)
			if outs[k] {
				outputs = append(outputs, n)
			}
			n++
		}
	}
	if len(outputs) > 0 {
		fmt.Fprintf(&b, "-> %v", outputs)
	}
	return b.String()
}

// ------------------------------------------------------------------- I06

func i06(c *Ctx) {
	for k := 0; k < 25; k++ {
		w := newScripts(c, 0)
		m := w.machine(c, false)
		mods := m.modules(w.g.mods)
		l := w.valid(6+c.R.Intn(40), c.R.Intn(3), 4)
		ins := instructionsOf(l)
		if a, b := scriptString(readInstructions(c, ins)), scriptString(l); a != b {
			c.Violate("instructions", "instructions do not read back as they were built: %s\nbuilt %s", a, b)
		}
		p := w.compile(c, l, mods)
		if a, b := programString(p), refProgram(l, w.fn); a != b {
			c.Violate("program", "the program is\n%s\nwant\n%s\nnames %s: %s", a, b, w.how, scriptString(l))
		}
		for i, x := range mods.List() {
			if x.Index() != w.g.mods[i] {
				c.Violate("modules", "the module at %d has the index %d, want %d", i, x.Index(), w.g.mods[i])
			}
			f, err := mods.Fetch(x.Index())
			if err != nil || f != x {
				c.Violate("modules", "fetching the module %d gives %v, %v", x.Index(), f, err)
			}
		}
		for i := uint(0); i < 10; i++ {
			if _, err := mods.Fetch(i); (err == nil) != w.known[i] {
				c.Violate("modules", "fetching the module %d gives the error %v, known: %v", i, err, w.known[i])
			}
		}
		c.Count("programs compared with their script", 1)
		c.Distinct(refProgram(l, w.fn))
		c.Sample("%s compiles to %s", scriptString(l), refProgram(l, w.fn))
	}
}

// readInstructions reads real instructions back into the model.
func readInstructions(c *Ctx, ins instructions.Instructions) []*iIns {
	out := []*iIns{}
	for _, x := range ins.List() {
		n := 0
		for _, is := range []bool{x.IsModule(), x.IsApplication(), x.IsParameter(), x.IsAssignment(), x.IsAttachment(), x.IsExecution()} {
			if is {
				n++
			}
		}
		if n != 1 {
			c.Violate("kinds", "an instruction is of %d kinds", n)
		}
		switch {
		case x.IsModule():
			out = append(out, &iIns{kind: kMod, name: string(x.Module().Name()), idx: x.Module().Index()})
		case x.IsApplication():
			out = append(out, &iIns{kind: kApp, name: string(x.Application().Name()), a: string(x.Application().Module())})
		case x.IsParameter():
			k := kOut
			if x.Parameter().IsInput() {
				k = kIn
			}
			out = append(out, &iIns{kind: k, name: string(x.Parameter().Name())})
		case x.IsAttachment():
			v := x.Attachment().Variable()
			out = append(out, &iIns{kind: kAtt, name: string(v.Current()), idx: v.Target(), a: string(x.Attachment().Application())})
		case x.IsExecution():
			out = append(out, &iIns{kind: kExec, a: string(x.Execution())})
		case x.IsAssignment():
			i := &iIns{name: string(x.Assignment().Variable())}
			v := x.Assignment().Value()
			n := 0
			if v.IsVariable() {
				n++
				i.kind, i.a = kVar, string(v.Variable())
			}
			if v.IsConstant() {
				n++
				i.kind, i.data = kConst, v.Constant()
			}
			if v.IsInstructions() {
				n++
				i.kind, i.sub = kSub, readInstructions(c, v.Instructions())
			}
			if v.IsExecution() {
				n++
				i.kind, i.a = kRun, string(v.Execution())
			}
			if n != 1 {
				c.Violate("kinds", "a value is of %d kinds", n)
			}
			out = append(out, i)
		}
	}
	return out
}

func init() {
	cases := func(quick, thorough int) func(string) int {
		return func(tier string) int {
			if tier == "thorough" {
				return thorough
			}
			return quick
		}
	}
	const gen = "Scripts are random: up to 50 instructions and three levels of sub-programs, with modules, applications, parameters, assignments of all kinds, re-assigned variables, attachments and executions, under five ways of reading names. "
	register(&Prop{ID: "I01", Rule: gen + "A distinct case is a distinct script.", Cases: cases(8000, 200000), Run: i01})
	register(&Prop{ID: "I02", Rule: gen + "Every call of a module is recorded, with chains of up to 70 executions. A distinct case is a distinct script.", Cases: cases(8000, 200000), Run: i02, Hang: 60 * time.Second})
	register(&Prop{ID: "I03", Rule: gen + "Valid ones, ones with one thing changed, and ones that use names without regard to what is declared. A distinct case is a distinct script.", Cases: cases(8000, 200000), Run: i03})
	register(&Prop{ID: "I04", Rule: gen + "With failing modules and too few inputs. A distinct case is a distinct script, with its failures, that stops with an error.", Cases: cases(8000, 200000), Run: i04})
	register(&Prop{ID: "I05", Rule: gen + "Six programs, executed and compiled by six goroutines under the race detector. A distinct case is a distinct script.", Cases: cases(1200, 20000), Run: i05})
	register(&Prop{ID: "I06", Rule: gen + "A distinct case is a distinct program.", Cases: cases(8000, 200000), Run: i06})
}
