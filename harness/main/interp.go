//go:build go1.18

package main

import (
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strings"

	interp "github.com/steve-care-software/rodkina/libs/interpreters/applications"
	"github.com/steve-care-software/rodkina/libs/interpreters/domain/instructions"
	i_apps "github.com/steve-care-software/rodkina/libs/interpreters/domain/instructions/applications"
	i_att "github.com/steve-care-software/rodkina/libs/interpreters/domain/instructions/attachments"
	i_mods "github.com/steve-care-software/rodkina/libs/interpreters/domain/instructions/modules"
	i_params "github.com/steve-care-software/rodkina/libs/interpreters/domain/instructions/parameters"
	"github.com/steve-care-software/rodkina/libs/interpreters/domain/programs"
	p_mods "github.com/steve-care-software/rodkina/libs/interpreters/domain/programs/modules"
	"github.com/steve-care-software/rodkina/zzverif/vh"
)

// ---- a small description of programs ----

type iKind int

const (
	iModule iKind = iota
	iApp
	iParam
	iVar // assignments
	iConst
	iExecVal
	iSub
	iAttach
	iExec
)

type iIns struct {
	kind iKind
	name string // what is declared, assigned, attached to or executed
	ref  string // module of an application, variable, application that gives the value
	n    uint   // module index, local
	in   bool
	data []byte
	sub  []iIns
}

func (i iIns) text() string {
	switch i.kind {
	case iModule:
		return fmt.Sprintf("module %s @%d", i.name, i.n)
	case iApp:
		return fmt.Sprintf("app %s of %s", i.name, i.ref)
	case iParam:
		return fmt.Sprintf("param %s in=%v", i.name, i.in)
	case iVar:
		return fmt.Sprintf("%s = var %s", i.name, i.ref)
	case iConst:
		return fmt.Sprintf("%s = %q", i.name, i.data)
	case iExecVal:
		return fmt.Sprintf("%s = exec %s", i.name, i.ref)
	case iSub:
		return fmt.Sprintf("%s = {%s}", i.name, iText(i.sub))
	case iAttach:
		return fmt.Sprintf("attach %s to %s local %d", i.ref, i.name, i.n)
	}
	return "exec " + i.name
}

func iText(l []iIns) string {
	s := []string{}
	for _, i := range l {
		s = append(s, i.text())
	}
	return strings.Join(s, "; ")
}

func (i iIns) make() instructions.Instruction {
	b := instructions.NewInstructionBuilder().Create()
	nm, rf := []byte(i.name), []byte(i.ref)
	vb := instructions.NewValueBuilder().Create()
	switch i.kind {
	case iModule:
		return must(b.WithModule(must(i_mods.NewBuilder().Create().WithIndex(i.n).WithName(nm).Now())).Now())
	case iApp:
		return must(b.WithApplication(must(i_apps.NewBuilder().Create().WithName(nm).WithModule(rf).Now())).Now())
	case iParam:
		pb := i_params.NewBuilder().Create().WithName(nm)
		if i.in {
			pb = pb.IsInput()
		}
		return must(b.WithParameter(must(pb.Now())).Now())
	case iAttach:
		v := must(i_att.NewVariableBuilder().Create().WithCurrent(rf).WithTarget(i.n).Now())
		return must(b.WithAttachment(must(i_att.NewBuilder().Create().WithApplication(nm).WithVariable(v).Now())).Now())
	case iExec:
		return must(b.WithExecution(nm).Now())
	case iVar:
		vb = vb.WithVariable(rf)
	case iConst:
		vb = vb.WithConstant(i.data)
	case iExecVal:
		vb = vb.WithExecution(rf)
	case iSub:
		vb = vb.WithInstructions(iMake(i.sub))
	}
	return must(b.WithAssignment(must(instructions.NewAssignmentBuilder().Create().WithVariable(nm).WithValue(must(vb.Now())).Now())).Now())
}

func iMake(l []iIns) instructions.Instructions {
	out := []instructions.Instruction{}
	for _, i := range l {
		out = append(out, i.make())
	}
	return must(instructions.NewBuilder().Create().WithList(out).Now())
}

// ---- what a program means ----

type iAppl struct {
	index, module uint
	att           []iAtt
}

type iAtt struct {
	val   *iVal
	local uint
}

type iVal struct {
	input uint
	isIn  bool
	data  []byte
	app   *iAppl
	prog  *iProg
}

type iStep struct {
	val *iVal
	app *iAppl
}

type iProg struct {
	steps   []iStep
	outputs []uint
}

func (v *iVal) text() string {
	switch {
	case v.isIn:
		return fmt.Sprintf("in%d", v.input)
	case v.data != nil:
		return fmt.Sprintf("%q", v.data)
	case v.app != nil:
		return v.app.text()
	}
	return v.prog.text()
}

func (a *iAppl) text() string {
	s := fmt.Sprintf("a%d@%d", a.index, a.module)
	for _, t := range a.att {
		s += fmt.Sprintf(" %d<-(%s)", t.local, t.val.text())
	}
	return s
}

func (p *iProg) text() string {
	s := []string{}
	for _, x := range p.steps {
		if x.val != nil {
			s = append(s, "v "+x.val.text())
		} else {
			s = append(s, "x "+x.app.text())
		}
	}
	return fmt.Sprintf("{%s -> %v}", strings.Join(s, "; "), p.outputs)
}

func realVal(v programs.Value) *iVal {
	n := 0
	out := &iVal{}
	if v.IsInput() {
		out.isIn, out.input = true, *v.Input()
		n++
	}
	if v.IsConstant() {
		out.data = v.Constant()
		n++
	}
	if v.IsExecution() {
		out.app = realAppl(v.Execution())
		n++
	}
	if v.IsProgram() {
		out.prog = realProg(v.Program())
		n++
	}
	if n != 1 {
		panic(fmt.Sprintf("a value has %d kinds", n))
	}
	return out
}

func realAppl(a programs.Application) *iAppl {
	out := &iAppl{index: a.Index(), module: a.Module().Index()}
	if a.HasAttachments() {
		for _, t := range a.Attachments().List() {
			out.att = append(out.att, iAtt{realVal(t.Value()), t.Local()})
		}
	}
	return out
}

func realProg(p programs.Program) *iProg {
	out := &iProg{}
	for _, x := range p.Instructions().List() {
		if x.IsValue() {
			out.steps = append(out.steps, iStep{val: realVal(x.Value())})
		} else {
			out.steps = append(out.steps, iStep{app: realAppl(x.Execution())})
		}
	}
	if p.HasOutputs() {
		out.outputs = p.Outputs()
	}
	return out
}

var errInterp = errors.New("not valid")

func iName(s string) string { return strings.ToLower(s) }

func iCompile(l []iIns, all map[uint]bool) (*iProg, error) {
	mods := map[string]uint{}
	apps := map[string]*iAppl{}
	type par struct {
		in bool
		at uint
	}
	params := map[string]par{}
	ins := uint(0)
	vals := map[string]*iVal{}
	out := &iProg{}
	for _, x := range l {
		nm, rf := iName(x.name), iName(x.ref)
		switch x.kind {
		case iModule:
			_, dup := mods[nm]
			if dup || !all[x.n] {
				return nil, errInterp
			}
			mods[nm] = x.n
		case iApp:
			_, dup := apps[nm]
			m, ok := mods[rf]
			if dup || !ok {
				return nil, errInterp
			}
			apps[nm] = &iAppl{index: uint(len(apps)), module: m}
		case iParam:
			if _, dup := params[nm]; dup {
				return nil, errInterp
			}
			params[nm] = par{x.in, ins}
			if x.in {
				ins++
			}
		case iAttach:
			v := vals[rf]
			if v == nil {
				p, ok := params[rf]
				if !ok || !p.in {
					return nil, errInterp
				}
				v = &iVal{isIn: true, input: p.at}
			}
			a := apps[nm]
			if a == nil {
				return nil, errInterp
			}
			apps[nm] = &iAppl{a.index, a.module, append(append([]iAtt{}, a.att...), iAtt{v, x.n})}
		case iExec:
			if apps[nm] == nil {
				return nil, errInterp
			}
			out.steps = append(out.steps, iStep{app: apps[nm]})
		default:
			v := &iVal{}
			switch x.kind {
			case iVar:
				p, ok := params[rf]
				if !ok || !p.in {
					return nil, errInterp
				}
				v.isIn, v.input = true, p.at
			case iConst:
				v.data = x.data
			case iExecVal:
				if v.app = apps[rf]; v.app == nil {
					return nil, errInterp
				}
			case iSub:
				p, err := iCompile(x.sub, all)
				if err != nil {
					return nil, err
				}
				v.prog = p
			}
			vals[nm] = v
			if p, ok := params[nm]; ok && !p.in {
				out.outputs = append(out.outputs, uint(len(out.steps)))
			}
			out.steps = append(out.steps, iStep{val: v})
		}
	}
	if len(out.steps) == 0 {
		return nil, errInterp
	}
	return out, nil
}

// iWorld records the calls of the modules
type iWorld struct {
	log  []string
	fail int // the call that fails
}

func (w *iWorld) call(m uint, in map[uint]interface{}) (interface{}, error) {
	keys := []int{}
	for k := range in {
		keys = append(keys, int(k))
	}
	sort.Ints(keys)
	s := fmt.Sprintf("m%d(", m)
	for _, k := range keys {
		s += fmt.Sprintf("%d:%v ", k, in[uint(k)])
	}
	w.log = append(w.log, s+")")
	if len(w.log) == w.fail {
		return nil, errInterp
	}
	if len(w.log)%7 == 3 {
		return nil, nil
	}
	return fmt.Sprintf("r%d", len(w.log)), nil
}

func (w *iWorld) val(v *iVal, in []interface{}) (interface{}, error) {
	switch {
	case v.isIn:
		if v.input >= uint(len(in)) {
			return nil, errInterp
		}
		return in[v.input], nil
	case v.data != nil:
		return v.data, nil
	case v.app != nil:
		return w.app(v.app, in)
	}
	return w.prog(v.prog, in)
}

func (w *iWorld) app(a *iAppl, in []interface{}) (interface{}, error) {
	args := map[uint]interface{}{}
	for _, t := range a.att {
		v, err := w.val(t.val, in)
		if err != nil {
			return nil, err
		}
		args[t.local] = v
	}
	return w.call(a.module, args)
}

func (w *iWorld) prog(p *iProg, in []interface{}) ([]interface{}, error) {
	vals := map[uint]interface{}{}
	for i, x := range p.steps {
		if x.val == nil {
			if _, err := w.app(x.app, in); err != nil {
				return nil, err
			}
			continue
		}
		v, err := w.val(x.val, in)
		if err != nil {
			return nil, err
		}
		vals[uint(i)] = v
	}
	out := []interface{}{}
	for _, o := range p.outputs {
		v, ok := vals[o]
		if !ok {
			return nil, errInterp
		}
		out = append(out, v)
	}
	return out, nil
}

// ---- generation ----

type iGen struct {
	c    *vh.Ctx
	wild int // one in wild names is arbitrary
}

func (g *iGen) name() string {
	return string([]byte{"abcdABxy"[g.c.R.Intn(8)]})
}

func (g *iGen) from(l []string) string {
	if len(l) == 0 || g.c.One(g.wild) {
		return g.name()
	}
	n := l[g.c.R.Intn(len(l))]
	if g.c.One(5) {
		n = strings.ToUpper(n)
	}
	return n
}

func (g *iGen) fresh(l []string) string {
	for i := 0; i < 8; i++ {
		n := g.name()
		dup := false
		for _, x := range l {
			dup = dup || iName(x) == iName(n)
		}
		if !dup || g.c.One(g.wild) {
			return n
		}
	}
	return fmt.Sprintf("n%d", g.c.R.Intn(50))
}

func (g *iGen) list(depth, n int) []iIns {
	c := g.c
	var mods, apps, params, ins, vals []string
	out := []iIns{}
	for len(out) < n {
		k := iKind(c.R.Intn(int(iExec) + 1))
		if !c.One(g.wild) {
			switch {
			case len(mods) == 0 && c.Bool():
				k = iModule
			case len(mods) > 0 && len(apps) == 0 && c.Bool():
				k = iApp
			}
			if k == iApp && len(mods) == 0 || (k == iAttach || k == iExec || k == iExecVal) && len(apps) == 0 || k == iVar && len(ins) == 0 || k == iAttach && len(ins)+len(vals) == 0 {
				continue
			}
		}
		x := iIns{kind: k}
		switch k {
		case iModule:
			x.name, x.n = g.fresh(mods), uint(c.Int(0, 2))
			if c.One(g.wild) {
				x.n = 9
			}
			mods = append(mods, x.name)
		case iApp:
			x.name, x.ref = g.fresh(apps), g.from(mods)
			apps = append(apps, x.name)
		case iParam:
			x.name, x.in = g.fresh(params), c.Bool()
			params = append(params, x.name)
			if x.in {
				ins = append(ins, x.name)
			}
		case iAttach:
			x.name, x.ref, x.n = g.from(apps), g.from(append(append([]string{}, ins...), vals...)), uint(c.Int(0, 3))
		case iExec:
			x.name = g.from(apps)
		default:
			if k == iSub && depth == 0 {
				k = iConst
				x.kind = k
			}
			x.name = g.name()
			if len(params) > 0 && c.Bool() {
				x.name = g.from(params)
			}
			switch k {
			case iVar:
				x.ref = g.from(ins)
			case iConst:
				x.data = c.Bytes(c.Int(0, 3))
			case iExecVal:
				x.ref = g.from(apps)
			case iSub:
				x.sub = g.list(depth-1, c.Int(1, 6))
			}
			vals = append(vals, x.name)
		}
		out = append(out, x)
	}
	return out
}

type iRun struct {
	w    *iWorld
	mods p_mods.Modules
	all  map[uint]bool
	app  interp.Application
}

func newIRun() *iRun {
	r := &iRun{w: &iWorld{}, all: map[uint]bool{}}
	l := []p_mods.Module{}
	for i := uint(0); i < 3; i++ {
		i := i
		r.all[i] = true
		l = append(l, must(p_mods.NewModuleBuilder().Create().WithIndex(i).WithFunc(func(in map[uint]interface{}) (interface{}, error) { return r.w.call(i, in) }).Now()))
	}
	r.mods = must(p_mods.NewBuilder().Create().WithList(l).Now())
	r.app = interp.NewApplication(func(b []byte) string { return iName(string(b)) })
	return r
}

func (r *iRun) compile(c *vh.Ctx) (programs.Program, *iProg) {
	g := &iGen{c: c, wild: c.Pick(5, 30, 30, 300)}
	l := g.list(2, c.Int(1, 16))
	c.Logf("instructions %s", iText(l))
	want, werr := iCompile(l, r.all)
	got, err := r.app.Compile(r.mods, iMake(l))
	if werr == nil {
		c.Logf("expect %s", want.text())
	} else {
		c.Logf("expect an error")
	}
	if err != nil {
		c.Logf("got error %v", err)
	} else {
		c.Logf("got %s", realProg(got).text())
	}
	c.Assert((err == nil) == (werr == nil), "accept", "compiling returned %v", err)
	if err != nil {
		return nil, nil
	}
	return got, want
}

func init() {
	props["C24"] = vh.Prop{Rule: "random instructions with declared, undeclared and repeated names against a direct resolution", Run: func(c *vh.Ctx) {
		r := newIRun()
		got, want := r.compile(c)
		if want == nil {
			return
		}
		if len(want.steps) > 2 {
			c.NonTrivial()
		}
		c.Assert(realProg(got).text() == want.text(), "program", "another program was compiled")
	}}
	props["C25"] = vh.Prop{Rule: "random programs and inputs, with failing modules, against a direct evaluation", Run: func(c *vh.Ctx) {
		r := newIRun()
		got, _ := r.compile(c)
		if got == nil {
			return
		}
		if c.One(4) {
			// programs that were not compiled: outputs that are not values
			b := programs.NewBuilder().Create().WithInstructions(got.Instructions())
			o := append([]uint{uint(c.Int(0, len(got.Instructions().List())))}, got.Outputs()...)
			got = must(b.WithOutputs(o).Now())
		}
		p := realProg(got)
		for k := 0; k < 3; k++ {
			in := []interface{}{}
			for i := c.Int(0, 4); i > 0; i-- {
				if c.One(5) {
					in = append(in, nil)
				} else {
					in = append(in, fmt.Sprintf("i%d", c.R.Intn(20)))
				}
			}
			fail := 0
			if c.One(3) {
				fail = c.Int(1, 5)
			}
			ww := &iWorld{fail: fail}
			want, werr := ww.prog(p, in)
			r.w = &iWorld{fail: fail}
			out, err := r.app.Execute(in, got)
			c.Logf("program %s, input %v, call %d fails", p.text(), in, fail)
			c.Logf("got %v, %v, calls %q", out, err, r.w.log)
			c.Logf("expect %v, %v, calls %q", want, werr, ww.log)
			c.Assert((err == nil) == (werr == nil), "error", "executing returned %v", err)
			c.Assert(reflect.DeepEqual(r.w.log, ww.log), "calls", "the modules were called otherwise")
			if err == nil {
				c.Assert(reflect.DeepEqual(out, want), "outputs", "outputs %v instead of %v", out, want)
			}
			if len(ww.log) > 1 {
				c.NonTrivial()
			}
		}
	}}
}
