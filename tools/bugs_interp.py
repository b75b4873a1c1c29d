#!/usr/bin/env python3
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkbug import bug
APP = "libs/interpreters/applications/application.go"
PRE = '''package main

import (
	"fmt"
	"os"
	"sync"

	"github.com/steve-care-software/rodkina/libs/interpreters/applications"
	"github.com/steve-care-software/rodkina/libs/interpreters/domain/instructions"
	ins_apps "github.com/steve-care-software/rodkina/libs/interpreters/domain/instructions/applications"
	"github.com/steve-care-software/rodkina/libs/interpreters/domain/instructions/attachments"
	ins_modules "github.com/steve-care-software/rodkina/libs/interpreters/domain/instructions/modules"
	"github.com/steve-care-software/rodkina/libs/interpreters/domain/instructions/parameters"
	"github.com/steve-care-software/rodkina/libs/interpreters/domain/programs"
	"github.com/steve-care-software/rodkina/libs/interpreters/domain/programs/modules"
)

var wg sync.WaitGroup

func must(err error) {
	if err != nil {
		fmt.Println("unexpected:", err)
		os.Exit(1)
	}
}

func fail(s string, a ...interface{}) {
	fmt.Printf(s+"\\n", a...)
	os.Exit(1)
}

type I = instructions.Instruction

func ib() instructions.InstructionBuilder { return instructions.NewInstructionBuilder().Create() }

func mod(name string, index uint) I {
	m, err := ins_modules.NewBuilder().Create().WithName([]byte(name)).WithIndex(index).Now()
	must(err)
	i, err := ib().WithModule(m).Now()
	must(err)
	return i
}

func application(name, module string) I {
	m, err := ins_apps.NewBuilder().Create().WithName([]byte(name)).WithModule([]byte(module)).Now()
	must(err)
	i, err := ib().WithApplication(m).Now()
	must(err)
	return i
}

func param(name string, input bool) I {
	b := parameters.NewBuilder().Create().WithName([]byte(name))
	if input {
		b.IsInput()
	}
	p, err := b.Now()
	must(err)
	i, err := ib().WithParameter(p).Now()
	must(err)
	return i
}

func set(name string, v instructions.Value, err error) I {
	must(err)
	a, err := instructions.NewAssignmentBuilder().Create().WithVariable([]byte(name)).WithValue(v).Now()
	must(err)
	i, err := ib().WithAssignment(a).Now()
	must(err)
	return i
}

func vb() instructions.ValueBuilder { return instructions.NewValueBuilder().Create() }

func setConst(name, value string) I {
	v, err := vb().WithConstant([]byte(value)).Now()
	return set(name, v, err)
}

func setVar(name, value string) I {
	v, err := vb().WithVariable([]byte(value)).Now()
	return set(name, v, err)
}

func setExec(name, app string) I {
	v, err := vb().WithExecution([]byte(app)).Now()
	return set(name, v, err)
}

func setSub(name string, list ...I) I {
	v, err := vb().WithInstructions(script(list...)).Now()
	return set(name, v, err)
}

func attach(variable string, target uint, app string) I {
	v, err := attachments.NewVariableBuilder().Create().WithCurrent([]byte(variable)).WithTarget(target).Now()
	must(err)
	a, err := attachments.NewBuilder().Create().WithVariable(v).WithApplication([]byte(app)).Now()
	must(err)
	i, err := ib().WithAttachment(a).Now()
	must(err)
	return i
}

func exec(app string) I {
	i, err := ib().WithExecution([]byte(app)).Now()
	must(err)
	return i
}

func script(list ...I) instructions.Instructions {
	s, err := instructions.NewBuilder().Create().WithList(list).Now()
	must(err)
	return s
}

var mu sync.Mutex
var calls []string

// mods has two modules, which show what they are called with
func mods() modules.Modules {
	list := []modules.Module{}
	for i := uint(0); i < 2; i++ {
		i := i
		m, err := modules.NewModuleBuilder().Create().WithIndex(i).WithFunc(func(in map[uint]interface{}) (interface{}, error) {
			s := fmt.Sprintf("m%d(%s %s %s)", i, show(in[0]), show(in[1]), show(in[2]))
			mu.Lock()
			calls = append(calls, s)
			mu.Unlock()
			return s, nil
		}).Now()
		must(err)
		list = append(list, m)
	}
	out, err := modules.NewBuilder().Create().WithList(list).Now()
	must(err)
	return out
}

func show(v interface{}) string {
	if b, ok := v.([]byte); ok {
		return string(b)
	}
	return fmt.Sprint(v)
}

var app = applications.NewApplication(func(name []byte) string { return string(name) })

func compile(list ...I) (programs.Program, error) { return app.Compile(mods(), script(list...)) }

func outputs(p programs.Program, in ...interface{}) string {
	out, err := app.Execute(in, p)
	if err != nil {
		return "error"
	}
	s := ""
	for _, o := range out {
		s += show(o) + ";"
	}
	return s
}
'''
bug("interp-output-once", "I01",
 [(APP, '''			if !param.parameter.IsInput() {
				outOutput = append(outOutput, uint(len(inInstructions)))
			}
''', '''			if _, assigned := before[variableNameStr]; !assigned && !param.parameter.IsInput() {
				outOutput = append(outOutput, uint(len(inInstructions)))
			}
'''), (APP, '''		outValues := inValues
		outValues[variableNameStr] = valueIns
''', '''		before := map[string]bool{}
		for name := range inValues {
			before[name] = true
		}

		outValues := inValues
		outValues[variableNameStr] = valueIns
''')],
 "an output parameter assigned twice",
 "only the first assignment of an output parameter gives an output value",
 PRE + '''
func main() {
	p, err := compile(param("out", false), setConst("out", "1"), setConst("out", "2"))
	must(err)
	if got := outputs(p); got != "1;2;" {
		fail("the outputs are %q", got)
	}
}
''')
bug("interp-attach-first", "I02",
 [(APP, '''				return nil, err
			}

			parameters[local] = ins
		}
''', '''				return nil, err
			}

			if _, ok := parameters[local]; !ok {
				parameters[local] = ins
			}
		}
''')],
 "an input parameter attached to a local that already has an attachment",
 "the earlier attachment of the local is kept, although the later one should win",
 PRE + '''
func main() {
	p, err := compile(mod("m", 0), application("a", "m"), param("x", true), param("y", true), param("out", false),
		attach("x", 0, "a"), setExec("out", "a"), attach("y", 0, "a"), setExec("out", "a"))
	must(err)
	if got := outputs(p, "X", "Y"); got != "m0(X <nil> <nil>);m0(Y <nil> <nil>);" {
		fail("the outputs are %q", got)
	}
}
''')
bug("interp-redeclare", "I03",
 [(APP, '''	if _, ok := inParameters[parameterNameStr]; ok {
		str := fmt.Sprintf("the parameter''', '''	if known, ok := inParameters[parameterNameStr]; ok && known.parameter.IsInput() == parameterIns.IsInput() {
		str := fmt.Sprintf("the parameter''')],
 "a name declared as input and as output",
 "a parameter declared twice, once as input and once as output, compiles",
 PRE + '''
func main() {
	if _, err := compile(param("x", true), param("x", false), setConst("x", "1")); err == nil {
		fail("a parameter declared twice compiles")
	}
}
''')
bug("interp-missing-input", "I04",
 [(APP, '''		subProgramOutput, err := app.Execute(input, subProgram)
		if err != nil {
			return nil, err
		}
''', '''		subProgramOutput, err := app.Execute(input, subProgram)
		if err != nil && len(subProgram.Outputs()) > 0 {
			return nil, err
		}
''')],
 "a sub-program without outputs whose module fails",
 "the failure of a sub-program that gives no outputs is ignored and the program carries on",
 PRE.replace('			mu.Unlock()\n', '''			mu.Unlock()
			if i == 1 {
				return nil, fmt.Errorf("failed")
			}
''') + '''
func main() {
	p, err := compile(mod("ok", 0), application("a", "ok"), param("out", false),
		setSub("x", mod("bad", 1), application("b", "bad"), exec("b")), setExec("out", "a"))
	must(err)
	if got := outputs(p); got != "error" {
		fail("a module failed, but the outputs are %q", got)
	}
}
''')
bug("interp-app-index", "I06",
 [(APP, "		index := appIns.Index()", "		index := uint(len(inApplications) - 1)")],
 "attaching to an application after another one was declared",
 "the application takes the number of the latest declared one",
 PRE + '''
func main() {
	p, err := compile(mod("m", 0), application("a", "m"), application("b", "m"), param("x", true), attach("x", 0, "a"), exec("a"))
	must(err)
	if got := p.Instructions().List()[0].Execution().Index(); got != 0 {
		fail("the first application has the index %d", got)
	}
}
''')
bug("interp-stale-value", "I02",
 [(APP, '''	if currentIns, ok := inValues[currentNameStr]; ok {
		return currentIns, nil
	}

	if parameter, ok := inParameters[currentNameStr]; ok {
''', '''	if currentIns, ok := inValues[currentNameStr]; ok && !currentIns.IsInput() {
		return currentIns, nil
	}

	if parameter, ok := inParameters[currentNameStr]; ok {
''')],
 "an input parameter assigned from another one, then attached",
 "the attachment takes the parameter's own input instead of the value assigned to it",
 PRE + '''
func main() {
	p, err := compile(mod("m", 0), application("a", "m"), param("x", true), param("y", true), param("out", false),
		setVar("x", "y"), attach("x", 0, "a"), setExec("out", "a"))
	must(err)
	if got := outputs(p, "X", "Y"); got != "m0(Y <nil> <nil>);" {
		fail("the outputs are %q", got)
	}
}
''')
bug("interp-shared-parameters", "I05",
 [(APP, '''	parameters := map[uint]interface{}{}
	if execution.HasAttachments() {
''', '''	parameters := app.parameters
	for local := range parameters {
		delete(parameters, local)
	}

	if execution.HasAttachments() {
'''), (APP, '''	nameBytesToStringFn NameBytesToString
}
''', '''	nameBytesToStringFn NameBytesToString
	parameters          map[uint]interface{}
}
'''), (APP, '''		nameBytesToStringFn: nameBytesToStringFn,
''', '''		nameBytesToStringFn: nameBytesToStringFn,
		parameters:          map[uint]interface{}{},
''')],
 "executions at the same time, or a module that keeps what it is called with",
 "all executions of an application share the map of the parameters handed to the modules",
 PRE + '''
func main() {
	var kept []map[uint]interface{}
	m, err := modules.NewModuleBuilder().Create().WithIndex(0).WithFunc(func(in map[uint]interface{}) (interface{}, error) {
		kept = append(kept, in)
		return in, nil
	}).Now()
	must(err)
	all, err := modules.NewBuilder().Create().WithList([]modules.Module{m}).Now()
	must(err)
	p, err := app.Compile(all, script(mod("m", 0), application("a", "m"), application("b", "m"), param("x", true), param("y", true),
		attach("x", 0, "a"), attach("y", 0, "b"), exec("a"), exec("b")))
	must(err)
	outputs(p, "X", "Y")
	if kept[0][0] != "X" || kept[1][0] != "Y" {
		fail("the modules were called with %v", kept)
	}
}
''')
