package main

import (
	"fmt"
	"helena/core"
	"helena/helena_dialect"
	"helena/verifsim/model"
	"helena/verifsim/rt"
	simos "helena/verifsim/simos"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

// Sys drives the code under test: one interpreter in the simulated machine.
type Sys struct {
	w     *World
	Scope *helena_dialect.Scope
	Reg   *helena_dialect.ModuleRegistry
	Trace bool
	Kept  []kept
	Ev    []string
	n     map[string]int
	keepV bool
}
type kept struct {
	v    core.Value
	text string
	what string
}

// NewSys makes an interpreter with its own root scope and module registry.
func NewSys(w *World, dir string, trace bool) *Sys {
	in := &Sys{w: w, Trace: trace, n: map[string]int{}}
	in.Scope = helena_dialect.NewRootScope(&helena_dialect.ScopeOptions{
		CapturePositions: trace, CaptureErrorStack: trace,
	})
	in.Reg = helena_dialect.NewModuleRegistry(&helena_dialect.ModuleOptions{
		CapturePositions: trace, CaptureErrorStack: trace,
	})
	helena_dialect.InitCommandsForModule(in.Scope, in.Reg, dir)
	in.host(in.Scope)
	in.Reg.Register("host", in.hostModule())
	return in
}

// hostModule is a native module of the host commands.
func (in *Sys) hostModule() *helena_dialect.Module {
	hs := helena_dialect.NewRootScope(nil)
	in.host(hs)
	ex := &helena_dialect.Exports{}
	for _, n := range hostNames {
		(*ex)[n] = core.STR(n)
	}
	return helena_dialect.NewModule(hs, ex)
}

var hostNames = []string{"emit", "tick", "steps", "keep", "env"}

func (in *Sys) host(s *helena_dialect.Scope) {
	s.RegisterNamedCommand("emit", hostCmd(func(a []core.Value) core.Result {
		in.Ev = append(in.Ev, ShowReals(a[1:]))
		in.hold(a[1:], "event "+strconv.Itoa(len(in.Ev)))
		if len(a) < 2 {
			return core.OK(core.NIL)
		}
		return core.OK(a[len(a)-1])
	}))
	s.RegisterNamedCommand("keep", hostCmd(func(a []core.Value) core.Result {
		if len(a) < 2 {
			return core.ERROR("wrong # args")
		}
		in.hold(a[1:], "kept "+strconv.Itoa(len(in.Kept)))
		return core.OK(a[len(a)-1])
	}))
	s.RegisterNamedCommand("env", hostCmd(func(a []core.Value) core.Result {
		if len(a) < 2 {
			return core.ERROR("wrong # args")
		}
		_, l := core.ValueToString(a[1])
		in.w.env(l)
		return core.OK(core.NIL)
	}))
	s.RegisterNamedCommand("tick", hostCmd(func(a []core.Value) core.Result {
		if len(a) < 2 {
			return core.ERROR("wrong # args")
		}
		_, l := core.ValueToString(a[1])
		k := in.n[l]
		in.n[l]++
		o := in.w.decide(l, k)
		var v core.Value = core.STR(o.Value)
		if o.Code == model.OK && len(a) > 2 {
			v = a[2]
		}
		switch o.Code {
		case model.YIELD:
			return core.YIELD(v)
		case model.RETURN:
			return core.RETURN(v)
		case model.ERROR:
			return core.ERROR(o.Value)
		case model.BREAK:
			return core.BREAK(core.NIL)
		case model.CONTINUE:
			return core.CONTINUE(core.NIL)
		case model.PASS:
			return in.pass()
		}
		return core.OK(v)
	}))
	s.RegisterNamedCommand("steps", stepsCmd{})
}

// pass gives the result of the dialect's own pass command.
func (in *Sys) pass() core.Result {
	c := in.Scope.ResolveNamedCommand("pass")
	return c.Execute([]core.Value{core.STR("pass")}, in.Scope)
}

func (in *Sys) hold(vs []core.Value, what string) {
	if !in.keepV {
		return
	}
	for _, v := range vs {
		if v != nil {
			in.Kept = append(in.Kept, kept{v, DeepReal(v), what})
		}
	}
}

type hostCmd func(args []core.Value) core.Result

func (h hostCmd) Execute(args []core.Value, _ any) core.Result { return h(args) }

type stepsCmd struct{}

// stepsState is never changed: each suspension has a state of its own, so
// that a state kept for too long shows.
type stepsState struct {
	n, i int64
	got  []core.Value
}

func (c stepsCmd) Execute(args []core.Value, _ any) core.Result {
	if len(args) < 2 {
		return core.ERROR("wrong # args")
	}
	r, n := core.ValueToInteger(args[1])
	if r.Code != core.ResultCode_OK {
		return r
	}
	return c.next(stepsState{n: n})
}
func (c stepsCmd) next(s stepsState) core.Result {
	if s.i >= s.n {
		return core.OK(core.TUPLE(s.got))
	}
	s.i++
	return core.YIELD_STATE(core.INT(s.i-1), s)
}
func (c stepsCmd) Resume(result core.Result, _ any) core.Result {
	s := result.Data.(stepsState)
	s.got = append(append([]core.Value{}, s.got...), result.Value)
	return c.next(s)
}

// RProc is a process of the real interpreter.
type RProc struct {
	in *Sys
	p  *helena_dialect.Process
}

// Out is an outcome, comparable with the model's.
type Out struct {
	Code  string
	V     core.Value
	Text  string
	Trace []string
	Crash string // the code under test panicked
}

func parse(text string, positions bool, file string) core.ParseResult {
	var src *core.Source
	if file != "" {
		src = &core.Source{Filename: &file}
	}
	tokens := core.Tokenizer{}.Tokenize(text)
	return core.NewParser(&core.ParserOptions{CapturePositions: positions}).ParseTokens(tokens, src)
}

// Start prepares a process for a script.
func (in *Sys) Start(text string) (p *RProc, res Out) {
	res = safely(func() Out {
		pr := parse(text, in.Trace, "")
		if !pr.Success {
			return Out{Code: "rejected", Text: pr.Message}
		}
		p = &RProc{in, in.Scope.PrepareProcess(in.Scope.Compile(*pr.Script))}
		return Out{Code: "ok"}
	})
	return
}

// Step runs the process to its next suspension or its end.
func (p *RProc) Step(v core.Value) Out {
	return safely(func() Out {
		if v != nil {
			p.p.YieldBack(v)
		}
		return p.in.result(p.p.Run())
	})
}
func (in *Sys) result(r core.Result) Out {
	out := Out{Code: core.RESULT_CODE_NAME(r), V: r.Value}
	switch r.Code {
	case core.ResultCode_OK, core.ResultCode_RETURN, core.ResultCode_YIELD, core.ResultCode_ERROR:
		out.Text = ShowReal(r.Value)
		in.hold([]core.Value{r.Value}, "result")
	}
	if es, is := r.Data.(*core.ErrorStack); is && es != nil && r.Code == core.ResultCode_ERROR {
		for i := uint(0); i < es.Depth(); i++ {
			l := es.Level(i)
			s := "?"
			if l.Frame != nil {
				s = ShowReals(*l.Frame)
			}
			pos := "-"
			if l.Position != nil {
				pos = fmt.Sprintf("%d:%d", l.Position.Line, l.Position.Column)
				if l.Source != nil && l.Source.Filename != nil {
					pos = *l.Source.Filename + ":" + pos
				}
			}
			out.Trace = append(out.Trace, pos+" "+s)
		}
	}
	return out
}

// safely turns a panic of the code under test into an outcome.
func safely(f func() Out) (res Out) {
	defer func() {
		r := recover()
		switch x := r.(type) {
		case nil:
		case rt.StepLimit:
			res = Out{Code: "hang", Crash: "does not end"}
		case rt.Exit:
			res = Out{Code: "exit", Text: strconv.Itoa(x.Code)}
		default:
			if isTooLong(r) {
				panic(r)
			}
			res = Out{Code: "panic", Crash: fmt.Sprint(r) + stackOf()}
		}
	}()
	return f()
}

// ShowReal displays a real value the way the model does.
func ShowReal(v core.Value) string {
	if v == nil {
		return "<none>"
	}
	switch v.Type() {
	case core.ValueType_NIL:
		return "nil"
	case core.ValueType_BOOLEAN:
		_, b := core.ValueToBoolean(v)
		if b {
			return "b:true"
		}
		return "b:false"
	case core.ValueType_INTEGER:
		_, i := core.ValueToInteger(v)
		return "i:" + strconv.FormatInt(i, 10)
	case core.ValueType_REAL:
		_, f := core.ValueToFloat(v)
		return "r:" + strconv.FormatFloat(f, 'g', -1, 64)
	case core.ValueType_STRING:
		_, s := core.ValueToString(v)
		return strconv.Quote(s)
	case core.ValueType_LIST:
		return "L[" + ShowReals(v.(core.ListValue).Values) + "]"
	case core.ValueType_TUPLE:
		return "(" + ShowReals(v.(core.TupleValue).Values) + ")"
	case core.ValueType_DICTIONARY:
		m := v.(core.DictionaryValue).Map
		ks := make([]string, 0, len(m))
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		p := []string{}
		for _, k := range ks {
			p = append(p, strconv.Quote(k)+"="+ShowReal(m[k]))
		}
		return "D{" + strings.Join(p, " ") + "}"
	case core.ValueType_SCRIPT:
		return "{script}"
	case core.ValueType_COMMAND:
		return "<command>"
	case core.ValueType_QUALIFIED:
		return "<qualified>"
	case core.ValueType_CUSTOM:
		if c, is := v.(core.CustomValue); is && c.CustomType().Name == "argspec" {
			return "<argspec>"
		}
		return "<custom>"
	}
	return "?"
}
func ShowReals(vs []core.Value) string {
	p := make([]string, len(vs))
	for i, v := range vs {
		p[i] = ShowReal(v)
	}
	return strings.Join(p, " ")
}

// DeepReal is ShowReal, looking into scripts as well.
func DeepReal(v core.Value) string {
	if v == nil {
		return "<none>"
	}
	all := func(vs []core.Value) string {
		p := make([]string, len(vs))
		for i, x := range vs {
			p[i] = DeepReal(x)
		}
		return strings.Join(p, " ")
	}
	switch v.Type() {
	case core.ValueType_LIST:
		return "L[" + all(v.(core.ListValue).Values) + "]"
	case core.ValueType_TUPLE:
		return "(" + all(v.(core.TupleValue).Values) + ")"
	case core.ValueType_DICTIONARY:
		m := v.(core.DictionaryValue).Map
		ks := make([]string, 0, len(m))
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		p := []string{}
		for _, k := range ks {
			p = append(p, strconv.Quote(k)+"="+DeepReal(m[k]))
		}
		return "D{" + strings.Join(p, " ") + "}"
	case core.ValueType_SCRIPT:
		return "{" + deepScript(v.(core.ScriptValue).Script, core.Display(v, nil)) + "}"
	case core.ValueType_QUALIFIED, core.ValueType_CUSTOM:
		return core.Display(v, nil)
	}
	return ShowReal(v)
}
func deepScript(s core.Script, text string) string {
	var b strings.Builder
	dump(&b, reflect.ValueOf(s), 0)
	return b.String() + " " + text
}

// dump writes the contents of a parsed script, whatever its types.
func dump(b *strings.Builder, v reflect.Value, depth int) {
	if depth > 40 || b.Len() > 20000 {
		return
	}
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			b.WriteString("-")
			return
		}
		if v.Kind() == reflect.Interface {
			if t := v.Elem().Type(); t.Implements(commandType) {
				b.WriteString("<command>")
				return
			}
		}
		dump(b, v.Elem(), depth+1)
	case reflect.Struct:
		b.WriteString(v.Type().Name() + "{")
		for i := 0; i < v.NumField(); i++ {
			switch v.Type().Field(i).Type {
			case sourceType, positionType, cacheType:
				continue
			}
			dump(b, v.Field(i), depth+1)
			b.WriteString(" ")
		}
		b.WriteString("}")
	case reflect.Slice, reflect.Array:
		b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			dump(b, v.Index(i), depth+1)
			b.WriteString(" ")
		}
		b.WriteString("]")
	case reflect.String:
		b.WriteString(strconv.Quote(v.String()))
	case reflect.Bool:
		b.WriteString(strconv.FormatBool(v.Bool()))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		b.WriteString(strconv.FormatInt(v.Int(), 10))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		b.WriteString(strconv.FormatUint(v.Uint(), 10))
	default:
		b.WriteString(v.Kind().String())
	}
}

var commandType = reflect.TypeFor[core.Command]()
var sourceType = reflect.TypeFor[*core.Source]()
var positionType = reflect.TypeFor[*core.SourcePosition]()
var cacheType = reflect.TypeFor[*core.Program]()

// ToReal converts plain model values.
func ToReal(v model.Value) core.Value {
	all := func(vs []model.Value) []core.Value {
		out := make([]core.Value, len(vs))
		for i, x := range vs {
			out[i] = ToReal(x)
		}
		return out
	}
	switch x := v.(type) {
	case nil:
		return nil
	case model.Nil:
		return core.NIL
	case model.Bool:
		return core.BOOL(bool(x))
	case model.Int:
		return core.INT(int64(x))
	case model.Real:
		return core.REAL(float64(x))
	case model.String:
		return core.STR(string(x))
	case model.List:
		return core.LIST(all(x.V))
	case model.Tuple:
		return core.TUPLE(all(x.V))
	case model.Dict:
		m := map[string]core.Value{}
		for k, y := range x.M {
			m[k] = ToReal(y)
		}
		return core.DICT(m)
	}
	panic("no real value")
}

// Vars displays the variables and constants of the root scope.
func (in *Sys) Vars() string {
	res := safely(func() Out {
		cs, vs := in.Scope.Context.Constants, in.Scope.Context.Variables
		names := []string{}
		for n := range vs {
			names = append(names, n)
		}
		for n := range cs {
			names = append(names, n)
		}
		sort.Strings(names)
		var b strings.Builder
		for _, n := range names {
			b.WriteString(n + "=" + ShowReal(in.Scope.ResolveVariable(n)) + " ")
		}
		return Out{Text: b.String()}
	})
	return res.Text + res.Crash
}

// Changed reports a retained value that does not display as it did.
func (in *Sys) Changed() (string, bool) {
	for _, k := range in.Kept {
		now := DeepReal(k.v)
		if now != k.text {
			return fmt.Sprintf("%s was %s, is now %s", k.what, k.text, now), true
		}
	}
	return "", false
}

func machine(files map[string]*simos.Node, dir string) {
	if files == nil {
		files = map[string]*simos.Node{}
	}
	simos.S = &simos.Sim{Files: files, Dir: dir}
}
