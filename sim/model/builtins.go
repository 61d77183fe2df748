package model

import (
	"path/filepath"
	"slices"
	"sort"
	"strings"
)

type execFn = func(e *Ev, args []Value) Res

// ensemble is a command with leading arguments and local subcommands.
type ensemble struct {
	spec *Argspec
	sc   *Scope
	meta Value
	// one is the treatment of a single value without subcommand (built-in
	// collections convert it)
	one func(v Value) Res
}

// module is a set of exported commands over a private root scope.
type module struct {
	sc      *Scope
	exports map[string]bool
}

// listCommands lists the commands of a scope after the word itself.
func (in *Interp) listCommands(self Value, s *Scope) Res {
	names := []string{}
	for n := range s.ctx.cmds {
		names = append(names, n)
	}
	in.Order(names)
	out := []Value{self}
	for _, n := range names {
		out = append(out, String(n))
	}
	return ok(List{out})
}

// fixed lists the subcommands of a kind of command.
func fixed(a []Value, prefix string, names ...string) Res {
	if len(a) != 2 {
		return arity(prefix + " subcommands")
	}
	out := []Value{String("subcommands")}
	for _, n := range names {
		out = append(out, String(n))
	}
	return ok(List{out})
}

func newCmd(kind string, f execFn) *Command {
	c := &Command{Kind: kind, exec: f}
	c.self = CmdV{c}
	return c
}
func (s *Scope) def(n string, f execFn) { s.ctx.cmds[n] = newCmd(n, f) }

var expandPrefix *Command
var numberCmd *Command

func init() {
	expandPrefix = newCmd("(prefix)", func(e *Ev, args []Value) Res {
		for len(args) > 0 {
			t, is := args[0].(Tuple)
			if !is {
				break
			}
			args = append(append([]Value{}, t.V...), args[1:]...)
		}
		if len(args) == 0 {
			return ok(Nil{})
		}
		c, r := e.sc.resolveCmd(args[0])
		if r.Code != OK {
			return r
		}
		return c.exec(e, args)
	})
	numberCmd = newCmd("(number)", doNumber)
}

func doNumber(_ *Ev, args []Value) Res {
	a, r := toFloat(args[0])
	if r.Code != OK {
		return r
	}
	if len(args) == 1 {
		return ok(num(a))
	}
	op, is := toStr(args[1])
	if !is {
		return fail("invalid subcommand name")
	}
	switch op {
	case "subcommands":
		return fixed(args, "<number>", "+", "-", "*", "/", "==", "!=", ">", ">=", "<", "<=")
	case "+", "-", "*", "/":
		if len(args)%2 == 0 {
			return fail(`wrong # operands: should be "operand ?operator operand? ?...?"`)
		}
		total, last := 0.0, a
		for i := 1; i < len(args); i += 2 {
			op, is := toStr(args[i])
			if !is {
				return fail("invalid operator")
			}
			switch op {
			case "+", "-", "*", "/":
			default:
				return fail(`invalid operator "` + op + `"`)
			}
			b, r := toFloat(args[i+1])
			if r.Code != OK {
				return r
			}
			switch op {
			case "+":
				total += last
				last = b
			case "-":
				total += last
				last = -b
			case "*":
				last *= b
			case "/":
				last /= b
			}
		}
		return ok(num(total + last))
	case "==", "!=", ">", ">=", "<", "<=":
		if len(args) != 3 {
			return fail(`wrong # operands: should be "operand1 ` + op + ` operand2"`)
		}
		b, r := toFloat(args[2])
		if r.Code != OK {
			return r
		}
		switch op {
		case "==":
			return okb(a == b)
		case "!=":
			return okb(a != b)
		case ">":
			return okb(a > b)
		case ">=":
			return okb(a >= b)
		case "<":
			return okb(a < b)
		}
		return okb(a <= b)
	}
	return fail(`unknown subcommand "` + op + `"`)
}

// body runs a value used as a body: a script, or a tuple as a command line.
func (e *Ev) body(v Value) Res {
	switch x := v.(type) {
	case Block:
		return e.run(x.S)
	case Tuple:
		return e.call(x.V)
	}
	return fail("body must be a script or tuple")
}

func destructure(shape, v Value, f func(name string, v Value, check bool) Res, badName string) Res {
	var walk func(shape, v Value, check bool) Res
	walk = func(shape, v Value, check bool) Res {
		t, is := shape.(Tuple)
		if !is {
			n, is := toStr(shape)
			if !is {
				return fail(badName)
			}
			return f(n, v, check)
		}
		vt, is := v.(Tuple)
		if !is || len(vt.V) < len(t.V) {
			return fail("bad value shape")
		}
		for i := range t.V {
			if r := walk(t.V[i], vt.V[i], check); r.Code != OK {
				return r
			}
		}
		return ok(Nil{})
	}
	if r := walk(shape, v, true); r.Code != OK {
		return r
	}
	walk(shape, v, false)
	return ok(v)
}

func (s *Scope) isLocal(n string) bool {
	if s.slots == nil {
		return false
	}
	_, is := s.slots[n]
	return is
}
func (s *Scope) setVar(n string, v Value, check bool) Res {
	if s.isLocal(n) {
		return fail(`cannot redefine local "` + n + `"`)
	}
	if _, is := s.ctx.consts[n]; is {
		return fail(`cannot redefine constant "` + n + `"`)
	}
	if !check {
		s.ctx.vars[n] = v
	}
	return ok(v)
}
func (s *Scope) setConst(n string, v Value, check bool) Res {
	if check {
		if s.isLocal(n) {
			return fail(`cannot define constant "` + n + `": local already exists`)
		}
		if _, is := s.ctx.consts[n]; is {
			return fail(`cannot redefine constant "` + n + `"`)
		}
		if _, is := s.ctx.vars[n]; is {
			return fail(`cannot define constant "` + n + `": variable already exists`)
		}
		return ok(v)
	}
	s.ctx.consts[n] = v
	return ok(v)
}
func (s *Scope) unset(name Value, check bool) Res {
	if t, is := name.(Tuple); is {
		for _, x := range t.V {
			if r := s.unset(x, true); r.Code != OK {
				return r
			}
		}
		if !check {
			for _, x := range t.V {
				s.unset(x, false)
			}
		}
		return ok(Nil{})
	}
	n, is := toStr(name)
	if !is {
		return fail("invalid variable name")
	}
	if s.isLocal(n) {
		return fail(`cannot unset local "` + n + `"`)
	}
	if _, is := s.ctx.consts[n]; is {
		return fail(`cannot unset constant "` + n + `"`)
	}
	if _, is := s.ctx.vars[n]; !is {
		return fail(`cannot unset "` + n + `": no such variable`)
	}
	if !check {
		delete(s.ctx.vars, n)
	}
	return ok(Nil{})
}

func slotNames(shape Value, into map[string]Value) Res {
	if t, is := shape.(Tuple); is {
		for _, x := range t.V {
			if r := slotNames(x, into); r.Code != OK {
				return r
			}
		}
		return ok(Nil{})
	}
	n, is := toStr(shape)
	if !is {
		return fail("invalid local name")
	}
	if _, is := into[n]; is {
		return fail(`duplicate local name "` + n + `"`)
	}
	into[n] = nil
	return ok(Nil{})
}
func (s *Scope) setLocals(shape, v Value) Res {
	return destructure(shape, v, func(n string, v Value, check bool) Res {
		if !check {
			s.slots[n] = v
		}
		return ok(v)
	}, "invalid local name")
}

// asBool is the callback of a condition script.
func asBool(b *bool) func(Res) Res {
	return func(r Res) Res {
		if r.Code != OK {
			return r
		}
		x, r2 := toBool(r.V)
		if r2.Code != OK {
			return r2
		}
		*b = x
		return r
	}
}
func (e *Ev) cond(v Value) (bool, Res) {
	if s, is := v.(Block); is {
		var b bool
		r := e.runCb(s.S, asBool(&b))
		return b, r
	}
	return toBoolR(v)
}
func toBoolR(v Value) (bool, Res) {
	b, r := toBool(v)
	return b, r
}

func (e *Ev) yieldCmd(v Value) Res { return ok(e.p.yield(v)) }

func builtins(s *Scope) {
	for _, n := range []string{"^", "|>"} {
		s.ctx.cmds[n] = newCmd(n, nil)
	}
	s.def("idem", func(_ *Ev, a []Value) Res {
		if len(a) != 2 {
			return arity("idem value")
		}
		return ok(a[1])
	})
	s.def("return", func(_ *Ev, a []Value) Res {
		if len(a) > 2 {
			return arity("return ?result?")
		}
		if len(a) == 2 {
			return Res{Code: RETURN, V: a[1]}
		}
		return Res{Code: RETURN, V: Nil{}}
	})
	s.def("yield", func(e *Ev, a []Value) Res {
		if len(a) > 2 {
			return arity("yield ?result?")
		}
		if len(a) == 2 {
			return e.yieldCmd(a[1])
		}
		return e.yieldCmd(Nil{})
	})
	s.def("error", func(_ *Ev, a []Value) Res {
		if len(a) != 2 {
			return arity("error message")
		}
		if _, is := toStr(a[1]); !is {
			return fail("invalid message")
		}
		return Res{Code: ERROR, V: a[1]}
	})
	s.def("break", func(_ *Ev, a []Value) Res {
		if len(a) != 1 {
			return arity("break")
		}
		return Res{Code: BREAK, V: Nil{}}
	})
	s.def("continue", func(_ *Ev, a []Value) Res {
		if len(a) != 1 {
			return arity("continue")
		}
		return Res{Code: CONTINUE, V: Nil{}}
	})
	s.def("pass", func(_ *Ev, a []Value) Res {
		if len(a) != 1 {
			return arity("pass")
		}
		return Res{Code: PASS, V: Nil{}}
	})
	s.def("eval", func(e *Ev, a []Value) Res {
		if len(a) != 2 {
			return arity("eval body")
		}
		return e.body(a[1])
	})
	s.def("set", func(e *Ev, a []Value) Res {
		if len(a) != 3 {
			return arity("set varname value")
		}
		return destructure(a[1], a[2], e.sc.setVar, "invalid variable name")
	})
	s.def("let", func(e *Ev, a []Value) Res {
		if len(a) != 3 {
			return arity("let constname value")
		}
		return destructure(a[1], a[2], e.sc.setConst, "invalid constant name")
	})
	s.def("unset", func(e *Ev, a []Value) Res {
		if len(a) != 2 {
			return arity("unset varname")
		}
		return e.sc.unset(a[1], false)
	})
	getVar := func(e *Ev, n Value, def Value) Res {
		s, is := toStr(n)
		if !is {
			return fail("invalid variable name")
		}
		if v := e.sc.resolve(s); v != nil {
			return ok(v)
		}
		if def != nil {
			return ok(def)
		}
		return fail(`cannot get "` + s + `": no such variable`)
	}
	s.def("get", func(e *Ev, a []Value) Res {
		if len(a) != 2 && len(a) != 3 {
			return arity("get varname ?default?")
		}
		var def Value
		if len(a) == 3 {
			def = a[2]
		}
		switch a[1].(type) {
		case Tuple:
			if def != nil {
				return fail("cannot use default with name tuples")
			}
			v, r := e.resolveValue(a[1])
			if r.Code != OK {
				return r
			}
			return ok(v)
		case QualV:
			v, r := e.resolveValue(a[1])
			if r.Code == OK {
				return ok(v)
			}
			if def != nil {
				return ok(def)
			}
			return r
		}
		return getVar(e, a[1], def)
	})
	s.def("exists", func(e *Ev, a []Value) Res {
		if len(a) != 2 {
			return arity("exists varname")
		}
		switch a[1].(type) {
		case Tuple:
			return fail("invalid value")
		case QualV:
			_, r := e.resolveValue(a[1])
			return okb(r.Code == OK)
		}
		return okb(getVar(e, a[1], nil).Code == OK)
	})
	mathOps(s)
	logic(s)
	control(s)
	collections(s)
	commands(s)
}

func mathOps(s *Scope) {
	fold := func(n, sig string, min int, f func(a, b float64) float64, one func(a float64) float64) {
		s.def(n, func(_ *Ev, a []Value) Res {
			if len(a) < min {
				return arity(sig)
			}
			x, r := toFloat(a[1])
			if r.Code != OK {
				return r
			}
			if len(a) == 2 {
				return ok(num(one(x)))
			}
			for _, v := range a[2:] {
				y, r := toFloat(v)
				if r.Code != OK {
					return r
				}
				x = f(x, y)
			}
			return ok(num(x))
		})
	}
	id := func(a float64) float64 { return a }
	neg := func(a float64) float64 { return -a }
	fold("+", "+ number ?number ...?", 2, func(a, b float64) float64 { return a + b }, id)
	fold("-", "- number ?number ...?", 2, func(a, b float64) float64 { return a - b }, neg)
	s.def("/", func(_ *Ev, a []Value) Res {
		if len(a) < 3 {
			return arity("/ number number ?number ...?")
		}
		x, r := toFloat(a[1])
		for _, v := range a[2:] {
			y, r2 := toFloat(v)
			if r.Code == OK {
				r = r2
			}
			x /= y
		}
		if r.Code != OK {
			return r
		}
		return ok(num(x))
	})
	fold("*", "* number ?number ...?", 2, func(a, b float64) float64 { return a * b }, id)
}

func logic(s *Scope) {
	tf := func(name string, first bool) {
		s.def(name, func(_ *Ev, a []Value) Res {
			if len(a) == 1 {
				return okb(first)
			}
			op, is := toStr(a[1])
			if !is {
				return fail("invalid subcommand name")
			}
			if op == "subcommands" {
				return fixed(a, name, "?", "!?")
			}
			if op != "?" && op != "!?" {
				return fail(`unknown subcommand "` + op + `"`)
			}
			if len(a) < 3 || len(a) > 4 {
				return arity(name + " " + op + " arg ?arg?")
			}
			if (op == "?") == first {
				return ok(a[2])
			}
			if len(a) == 4 {
				return ok(a[3])
			}
			return ok(Nil{})
		})
	}
	tf("true", true)
	tf("false", false)
	s.def("!", func(e *Ev, a []Value) Res {
		if len(a) != 2 {
			return arity("! arg")
		}
		b, r := e.cond(a[1])
		if r.Code != OK {
			return r
		}
		return okb(!b)
	})
	sc := func(name string, stop bool) {
		s.def(name, func(e *Ev, a []Value) Res {
			if len(a) < 2 {
				return arity(name + " arg ?arg ...?")
			}
			for _, v := range a[1:] {
				b, r := e.cond(v)
				if r.Code != OK {
					return r
				}
				if b == stop {
					return okb(stop)
				}
			}
			return okb(!stop)
		})
	}
	sc("&&", false)
	sc("||", true)
}

// turn is the treatment of the result of one loop turn: whether to stop, and
// with what.
func turn(r Res, last *Res) (bool, Res) {
	switch r.Code {
	case BREAK:
		return true, *last
	case CONTINUE:
		return false, r
	case OK:
		*last = r
		return false, r
	}
	return true, r
}

func control(s *Scope) {
	s.def("while", func(e *Ev, a []Value) Res {
		if len(a) != 3 {
			return arity("while test body")
		}
		body, is := a[2].(Block)
		if !is {
			return fail("body must be a script")
		}
		last := ok(Nil{})
		for {
			b, r := e.cond(a[1])
			if r.Code != OK {
				return r
			}
			if !b {
				return last
			}
			if stop, r := turn(e.runCb(body.S, nil), &last); stop {
				return r
			}
		}
	})
	s.def("if", func(e *Ev, a []Value) Res {
		if r := checkIf(a); r.Code != OK {
			return r
		}
		for i := 0; i < len(a); {
			k, _ := toStr(a[i])
			var body Value
			if k == "else" && i > 0 {
				body = a[i+1]
			} else {
				b, r := e.cond(a[i+1])
				if r.Code != OK {
					return r
				}
				if !b {
					i += 3
					continue
				}
				body = a[i+2]
			}
			b, is := body.(Block)
			if !is {
				return fail("body must be a script")
			}
			return e.run(b.S)
		}
		return ok(Nil{})
	})
	s.def("when", func(e *Ev, a []Value) Res {
		var cmd Value
		if len(a) != 2 && len(a) != 3 {
			return arity("when ?command? {?test body ...? ?default?}")
		}
		if len(a) == 3 {
			cmd = a[1]
		}
		cases, r := array(a[len(a)-1])
		if r.Code != OK {
			return r
		}
		for i := 0; i < len(cases); i += 2 {
			body := cases[i]
			if i < len(cases)-1 {
				body = cases[i+1]
				test := cases[i]
				if cmd != nil {
					c := cmd
					if b, is := cmd.(Block); is {
						r := e.run(b.S)
						if r.Code != OK {
							return r
						}
						c = r.V
					}
					if t, is := test.(Tuple); is {
						test = Tuple{append([]Value{c}, t.V...)}
					} else {
						test = Tuple{[]Value{c, test}}
					}
				}
				var b bool
				var r Res
				if t, is := test.(Tuple); is {
					r = e.callCb(t.V, asBool(&b))
				} else {
					b, r = e.cond(test)
				}
				if r.Code != OK {
					return r
				}
				if !b {
					continue
				}
			}
			x, is := body.(Block)
			if !is {
				return fail("body must be a script")
			}
			return e.run(x.S)
		}
		return ok(Nil{})
	})
	s.def("loop", doLoop)
	s.def("catch", doCatch)
}

func checkIf(a []Value) Res {
	if len(a) == 2 {
		return fail("wrong # args: missing if body")
	}
	i := 3
	for i < len(a) {
		k, is := toStr(a[i])
		if !is {
			return fail("invalid keyword")
		}
		left := len(a) - i
		switch k {
		case "elseif":
			switch left {
			case 1:
				return fail("wrong # args: missing elseif test")
			case 2:
				return fail("wrong # args: missing elseif body")
			}
			i += 3
		case "else":
			if left == 1 {
				return fail("wrong # args: missing else body")
			}
			i += 2
		default:
			return fail(`invalid keyword "` + k + `"`)
		}
	}
	if i == len(a) {
		return ok(Nil{})
	}
	return arity("if test body ?elseif test body ...? ?else? ?body?")
}

func (e *Ev) entries(d Dict) []Value {
	ks := make([]string, 0, len(d.M))
	for k := range d.M {
		ks = append(ks, k)
	}
	e.in.Order(ks)
	out := []Value{}
	for _, k := range ks {
		out = append(out, Tuple{[]Value{String(k), d.M[k]}})
	}
	return out
}

func doLoop(e *Ev, a []Value) Res {
	if len(a) < 2 {
		return arity("loop ?index? ?value source ...? body")
	}
	index, hasIndex := "", len(a)%2 == 1
	first := 1
	slots := map[string]Value{}
	if hasIndex {
		n, is := toStr(a[1])
		if !is {
			return fail("invalid index name")
		}
		index, first = n, 2
		slots[n] = nil
	}
	body, is := a[len(a)-1].(Block)
	if !is {
		return fail("body must be a script")
	}
	type source struct {
		shape Value
		next  func(i int) Res
		off   bool
	}
	sub := e.in2(e.sc.local(slots))
	var sources []*source
	for i := first; i < len(a)-1; i += 2 {
		if r := slotNames(a[i], slots); r.Code != OK {
			return r
		}
	}
	for i := first; i < len(a)-1; i += 2 {
		src := &source{shape: a[i]}
		elems := func(vs []Value) {
			src.next = func(i int) Res {
				if i >= len(vs) {
					return Res{Code: BREAK, V: Nil{}}
				}
				return ok(vs[i])
			}
		}
		switch x := a[i+1].(type) {
		case List:
			elems(x.V)
		case Dict:
			elems(e.entries(x))
		case Block:
			src.next = func(int) Res { return sub.run(x.S) }
		default:
			if _, r := e.sc.resolveCmd(x); r.Code != OK {
				return fail("invalid source")
			}
			src.next = func(i int) Res { return sub.call([]Value{x, Int(i)}) }
		}
		sources = append(sources, src)
	}
	last := ok(Nil{})
	active := len(sources)
	for i := 0; ; i++ {
		for n := range slots {
			slots[n] = nil
		}
		if hasIndex {
			slots[index] = Int(i)
		}
		for _, src := range sources {
			if src.off {
				continue
			}
			r := src.next(i)
			switch r.Code {
			case BREAK:
				src.off = true
				active--
				continue
			case CONTINUE:
				continue
			case OK:
			default:
				return r
			}
			if r := sub.sc.setLocals(src.shape, r.V); r.Code != OK {
				return r
			}
		}
		if active == 0 && len(sources) > 0 {
			return last
		}
		if stop, r := turn(sub.run(body.S), &last); stop {
			return r
		}
	}
}

func doCatch(e *Ev, a []Value) Res {
	type handler struct {
		kind, param string
		body        Value
	}
	var order []handler
	hs := map[string]handler{}
	for i := 2; i < len(a); {
		k, is := toStr(a[i])
		if !is {
			return fail("invalid keyword")
		}
		left := len(a) - i
		switch k {
		case "return", "yield", "error":
			switch left {
			case 1:
				return fail("wrong #args: missing " + k + " handler parameter")
			case 2:
				return fail("wrong #args: missing " + k + " handler body")
			}
			n, is := toStr(a[i+1])
			if !is {
				return fail("invalid " + k + " handler parameter name")
			}
			order = append(order, handler{k, n, a[i+2]})
			i += 3
		case "break", "continue", "finally":
			if left == 1 {
				return fail("wrong #args: missing " + k + " handler body")
			}
			order = append(order, handler{k, "", a[i+1]})
			i += 2
		default:
			return fail(`invalid keyword "` + k + `"`)
		}
	}
	if len(a) < 2 {
		return arity("catch body ?return value handler? ?yield value handler? ?error message handler? ?break handler? ?continue handler? ?finally handler?")
	}
	body, is := a[1].(Block)
	if !is {
		return fail("body must be a script")
	}
	for _, h := range order {
		if _, dup := hs[h.kind]; !dup {
			hs[h.kind] = h
		}
		if _, is := h.body.(Block); !is {
			return fail("invalid " + h.kind + " handler body")
		}
	}
	sc := e.sc
	bp := e.in.newProc(func(p *Proc) Res { return (&Ev{e.in, p, sc}).run(body.S) })
	res := bp.Step(Nil{})
	drop := func() {
		if !bp.Done {
			bp.Kill()
		}
	}
	if len(a) == 2 {
		drop()
		name := String(res.Code.String())
		switch res.Code {
		case OK, RETURN, YIELD, ERROR:
			return ok(Tuple{[]Value{name, res.V}})
		}
		return ok(Tuple{[]Value{name}})
	}
	result := res
	for {
		result = res
		h, is := hs[res.Code.String()]
		if res.Code == OK || !is {
			break
		}
		he := e
		if h.param != "" || res.Code == RETURN || res.Code == YIELD || res.Code == ERROR {
			he = e.in2(e.sc.local(map[string]Value{h.param: res.V}))
		}
		r := he.run(h.body.(Block).S)
		if r.Code == PASS {
			if res.Code == YIELD {
				v := e.p.yield(res.V)
				res = bp.Step(v)
				continue
			}
			break
		}
		if r.Code != OK {
			drop()
			return r
		}
		result = r
		break
	}
	drop()
	if h, is := hs["finally"]; is {
		if r := e.run(h.body.(Block).S); r.Code != OK {
			return r
		}
	}
	if result.Code == YIELD {
		return ok(e.p.yield(result.V))
	}
	return result
}

// newEnsemble makes the dispatching command of an ensemble.
func newEnsemble(ens *ensemble) *Command {
	c := &Command{Kind: "ensemble", ens: ens}
	c.self = CmdV{c}
	meta := newCmd("metacommand", nil)
	ens.meta = CmdV{meta}
	meta.exec = func(e *Ev, a []Value) Res {
		if len(a) == 1 {
			return ok(ens.meta)
		}
		sub, is := toStr(a[1])
		if !is {
			return fail("invalid subcommand name")
		}
		switch sub {
		case "subcommands":
			return fixed(a, "<metacommand>", "eval", "call", "argspec")
		case "eval":
			if len(a) != 3 {
				return arity("<metacommand> eval body")
			}
			return e.in2(ens.sc).body(a[2])
		case "call":
			if len(a) < 3 {
				return arity("<metacommand> call cmdname ?arg ...?")
			}
			n, is := toStr(a[2])
			if !is {
				return fail("invalid command name")
			}
			k := ens.sc.ctx.cmds[n]
			if k == nil {
				return fail(`unknown command "` + n + `"`)
			}
			return e.call(append([]Value{CmdV{k}}, a[3:]...))
		case "argspec":
			if len(a) != 2 {
				return arity("<metacommand> argspec")
			}
			return ok(SpecV{ens.spec})
		}
		return fail(`unknown subcommand "` + sub + `"`)
	}
	c.exec = func(e *Ev, a []Value) Res {
		n := ens.spec.nreq + 1
		if ens.one != nil && len(a) == 2 {
			return ens.one(a[1])
		}
		if len(a) == 1 {
			return ok(ens.meta)
		}
		if len(a) < n {
			return arity(ens.spec.sig(a[0], "<ensemble>") + " ?subcommand? ?arg ...?")
		}
		collect := func() ([]Value, Res) {
			m, r := ens.spec.bind(e, e.sc, a[1:n])
			if r.Code != OK {
				return nil, r
			}
			out := []Value{}
			for _, g := range ens.spec.Args {
				out = append(out, m[g.Name])
			}
			return out, ok(Nil{})
		}
		if len(a) == n {
			vs, r := collect()
			if r.Code != OK {
				return r
			}
			return ok(Tuple{vs})
		}
		sub, is := toStr(a[n])
		if !is {
			return fail("invalid subcommand name")
		}
		if sub == "subcommands" {
			if len(a) != n+1 {
				return arity(ens.spec.sig(a[0], "<ensemble>") + " subcommands")
			}
			return e.in.listCommands(a[n], ens.sc)
		}
		k := ens.sc.ctx.cmds[sub]
		if k == nil {
			return fail(`unknown subcommand "` + sub + `"`)
		}
		vs, r := collect()
		if r.Code != OK {
			return r
		}
		line := append(append([]Value{CmdV{k}}, vs...), a[n+1:]...)
		return k.exec(e, line)
	}
	return c
}

func intArgs(vs ...Value) ([]int64, Res) {
	out := []int64{}
	for _, v := range vs {
		n, r := toInt(v)
		if r.Code != OK {
			return nil, r
		}
		out = append(out, n)
	}
	return out, ok(Nil{})
}
func cl(n int64, hi int) int64 { return max(0, min(n, int64(hi))) }

func collections(s *Scope) {
	spec, _ := parseSpec(List{[]Value{String("value")}})
	mk := func(name string, one func(Value) Res) func(sub string, f execFn) {
		ens := &ensemble{spec: spec, sc: s.child(), one: one}
		s.ctx.cmds[name] = newEnsemble(ens)
		return func(sub string, f execFn) { ens.sc.ctx.cmds[sub] = newCmd(name+" "+sub, f) }
	}
	arr := func(f func(e *Ev, vs []Value, a []Value) Res) execFn {
		return func(e *Ev, a []Value) Res {
			vs, r := array(a[1])
			if r.Code != OK {
				return r
			}
			return f(e, vs, a)
		}
	}
	sized := func(sig string, lo, hi int, f execFn) execFn {
		return func(e *Ev, a []Value) Res {
			if len(a) < lo || len(a) > hi {
				return arity(sig)
			}
			return f(e, a)
		}
	}
	at := func(_ *Ev, vs []Value, a []Value) Res {
		i, r := toInt(a[2])
		if r.Code != OK {
			return r
		}
		if i < 0 || i >= int64(len(vs)) {
			if len(a) == 4 {
				return ok(a[3])
			}
			return fail(`index out of range "` + mustStr(Int(i)) + `"`)
		}
		return ok(vs[i])
	}
	length := func(_ *Ev, vs []Value, _ []Value) Res { return ok(Int(len(vs))) }

	l := mk("list", func(v Value) Res {
		vs, r := array(v)
		if r.Code != OK {
			return r
		}
		return ok(List{vs})
	})
	l("length", sized("list value length", 2, 2, arr(length)))
	l("at", sized("list value at index ?default?", 3, 4, arr(at)))
	l("range", sized("list value range first ?last?", 3, 4, arr(func(_ *Ev, vs []Value, a []Value) Res {
		n, r := intArgs(a[2:]...)
		if r.Code != OK {
			return r
		}
		lo, hi := max(0, n[0]), int64(len(vs))-1
		if len(n) == 2 {
			hi = min(hi, n[1])
		}
		out := []Value{}
		for i := lo; i <= hi; i++ {
			out = append(out, vs[i])
		}
		return ok(List{out})
	})))
	l("append", arr(func(_ *Ev, vs []Value, a []Value) Res {
		out := append([]Value{}, vs...)
		for _, v := range a[2:] {
			x, r := array(v)
			if r.Code != OK {
				return r
			}
			out = append(out, x...)
		}
		return ok(List{out})
	}))
	splice := func(vs []Value, first, last int64, ins []Value) Res {
		out := append([]Value{}, vs[:cl(first, len(vs))]...)
		out = append(out, ins...)
		return ok(List{append(out, vs[cl(max(max(0, first), last+1), len(vs)):]...)})
	}
	l("remove", sized("list value remove first last", 4, 4, arr(func(_ *Ev, vs []Value, a []Value) Res {
		n, r := intArgs(a[2:]...)
		if r.Code != OK {
			return r
		}
		return splice(vs, n[0], n[1], nil)
	})))
	l("insert", sized("list value insert index value2", 4, 4, arr(func(_ *Ev, vs []Value, a []Value) Res {
		n, r := intArgs(a[2])
		if r.Code != OK {
			return r
		}
		ins, r := array(a[3])
		if r.Code != OK {
			return r
		}
		return splice(vs, n[0], max(0, n[0])-1, ins)
	})))
	l("replace", sized("list value replace first last value2", 5, 5, arr(func(_ *Ev, vs []Value, a []Value) Res {
		n, r := intArgs(a[2:4]...)
		if r.Code != OK {
			return r
		}
		ins, r := array(a[4])
		if r.Code != OK {
			return r
		}
		return splice(vs, n[0], n[1], ins)
	})))
	l("sort", sized("list value sort ?comparator?", 2, 3, arr(func(e *Ev, vs []Value, a []Value) Res {
		out := append([]Value{}, vs...)
		bad := ok(Nil{})
		slices.SortFunc(out, func(x, y Value) int {
			if bad.Code != OK {
				return 0
			}
			if len(a) == 2 {
				sx, is1 := toStr(x)
				sy, is2 := toStr(y)
				if !is1 || !is2 {
					bad = fail(noStr)
					return 0
				}
				return strings.Compare(sx, sy)
			}
			r := e.isolated(e.sc, func(e *Ev) Res { return e.call([]Value{a[2], x, y}) })
			switch r.Code {
			case OK:
			case YIELD:
				bad = unexpected(YIELD)
				return 0
			default:
				bad = r
				return 0
			}
			n, r := toInt(r.V)
			if r.Code != OK {
				bad = r
				return 0
			}
			return int(max(-1, min(1, n)))
		})
		if bad.Code != OK {
			return bad
		}
		return ok(List{out})
	})))
	foreach := func(name, what string, get func(e *Ev, v Value) ([]Value, Res)) execFn {
		return func(e *Ev, a []Value) Res {
			if len(a) != 4 && len(a) != 5 {
				return arity(name + " value foreach ?index? " + what + " body")
			}
			index := ""
			slots := map[string]Value{}
			if len(a) == 5 {
				n, is := toStr(a[2])
				if !is {
					return fail("invalid index name")
				}
				index = n
				slots[n] = nil
			}
			vs, r := get(e, a[1])
			if r.Code != OK {
				return r
			}
			shape := a[len(a)-2]
			body, is := a[len(a)-1].(Block)
			if !is {
				return fail("body must be a script")
			}
			if r := slotNames(shape, slots); r.Code != OK {
				return r
			}
			sub := e.in2(e.sc.local(slots))
			last := ok(Nil{})
			for i, v := range vs {
				if len(a) == 5 {
					slots[index] = Int(i)
				}
				if r := sub.sc.setLocals(shape, v); r.Code != OK {
					return r
				}
				if stop, r := turn(sub.run(body.S), &last); stop {
					return r
				}
			}
			return last
		}
	}
	l("foreach", foreach("list", "element", func(_ *Ev, v Value) ([]Value, Res) { return array(v) }))

	t := mk("tuple", func(v Value) Res {
		switch x := v.(type) {
		case Tuple:
			return ok(x)
		case List, Block:
			vs, r := array(x)
			if r.Code != OK {
				return r
			}
			return ok(Tuple{vs})
		}
		return fail("invalid tuple")
	})
	t("length", sized("tuple value length", 2, 2, arr(length)))
	t("at", sized("tuple value at index ?default?", 3, 4, arr(at)))

	dm := func(f func(e *Ev, m map[string]Value, a []Value) Res) execFn {
		return func(e *Ev, a []Value) Res {
			m, r := toMap(a[1])
			if r.Code != OK {
				return r
			}
			return f(e, m, a)
		}
	}
	clone := func(m map[string]Value) map[string]Value {
		o := map[string]Value{}
		for k, v := range m {
			o[k] = v
		}
		return o
	}
	one := func(v Value) Res {
		switch v.(type) {
		case Dict, List, Tuple, Block:
			m, r := toMap(v)
			if r.Code != OK {
				return r
			}
			return ok(Dict{m})
		}
		return fail("invalid dictionary")
	}
	mk("int", func(v Value) Res {
		i, r := toInt(v)
		if r.Code != OK {
			return r
		}
		return ok(Int(i))
	})
	mk("real", func(v Value) Res {
		f, r := toFloat(v)
		if r.Code != OK {
			return r
		}
		return ok(Real(f))
	})
	mk("bool", func(v Value) Res {
		b, r := toBool(v)
		if r.Code != OK {
			return r
		}
		return ok(Bool(b))
	})
	d := mk("dict", one)
	d("size", sized("dict value size", 2, 2, dm(func(_ *Ev, m map[string]Value, _ []Value) Res { return ok(Int(len(m))) })))
	d("has", sized("dict value has key", 3, 3, dm(func(_ *Ev, m map[string]Value, a []Value) Res {
		k, is := toStr(a[2])
		if !is {
			return fail("invalid key")
		}
		_, is = m[k]
		return okb(is)
	})))
	d("get", sized("dict value get key ?default?", 3, 4, dm(func(_ *Ev, m map[string]Value, a []Value) Res {
		get := func(v Value) Res {
			k, is := toStr(v)
			if !is {
				return fail("invalid key")
			}
			x, is := m[k]
			if !is {
				if len(a) == 4 {
					return ok(a[3])
				}
				return fail(`unknown key "` + k + `"`)
			}
			return ok(x)
		}
		if t, is := a[2].(Tuple); is {
			if len(a) == 4 {
				return fail("cannot use default with key tuples")
			}
			out := []Value{}
			for _, k := range t.V {
				r := get(k)
				if r.Code != OK {
					return r
				}
				out = append(out, r.V)
			}
			return ok(Tuple{out})
		}
		return get(a[2])
	})))
	d("add", sized("dict value add key value", 4, 4, dm(func(_ *Ev, m map[string]Value, a []Value) Res {
		k, is := toStr(a[2])
		if !is {
			return fail("invalid key")
		}
		m = clone(m)
		m[k] = a[3]
		return ok(Dict{m})
	})))
	remove := dm(func(_ *Ev, m map[string]Value, a []Value) Res {
		m = clone(m)
		for _, v := range a[2:] {
			k, is := toStr(v)
			if !is {
				return fail("invalid key")
			}
			delete(m, k)
		}
		return ok(Dict{m})
	})
	d("remove", func(e *Ev, a []Value) Res {
		if len(a) == 2 {
			return one(a[1])
		}
		return remove(e, a)
	})
	merge := dm(func(_ *Ev, m map[string]Value, a []Value) Res {
		m = clone(m)
		for _, v := range a[2:] {
			m2, r := toMap(v)
			if r.Code != OK {
				return r
			}
			for k, x := range m2 {
				m[k] = x
			}
		}
		return ok(Dict{m})
	})
	d("merge", func(e *Ev, a []Value) Res {
		if len(a) == 2 {
			return one(a[1])
		}
		return merge(e, a)
	})
	part := func(n string, f func(en Tuple) Value) {
		d(n, sized("dict value "+n, 2, 2, dm(func(e *Ev, m map[string]Value, _ []Value) Res {
			out := []Value{}
			for _, x := range e.entries(Dict{m}) {
				out = append(out, f(x.(Tuple)))
			}
			return ok(List{out})
		})))
	}
	part("keys", func(x Tuple) Value { return x.V[0] })
	part("values", func(x Tuple) Value { return x.V[1] })
	part("entries", func(x Tuple) Value { return x })
	d("foreach", foreach("dict", "entry", func(e *Ev, v Value) ([]Value, Res) {
		m, r := toMap(v)
		if r.Code != OK {
			return nil, r
		}
		return e.entries(Dict{m}), ok(Nil{})
	}))

	st := mk("string", func(v Value) Res {
		x, is := toStr(v)
		if !is {
			return fail(noStr)
		}
		return ok(String(x))
	})
	st("length", sized("string value length", 2, 2, func(_ *Ev, a []Value) Res {
		x, is := toStr(a[1])
		if !is {
			return fail(noStr)
		}
		return ok(Int(len(x)))
	}))
	st("append", func(_ *Ev, a []Value) Res {
		out := ""
		for _, v := range a[1:] {
			x, is := toStr(v)
			if !is {
				return fail(noStr)
			}
			out += x
		}
		return ok(String(out))
	})
	str1 := func(f func(x string, a []Value) Res) execFn {
		return func(_ *Ev, a []Value) Res {
			x, is := toStr(a[1])
			if !is {
				return fail(noStr)
			}
			return f(x, a)
		}
	}
	clip := func(lo, hi int64, n int) (int, int) { // head end, tail start
		lo = max(0, lo)
		return int(min(lo, int64(n))), int(min(max(lo, hi+1), int64(n)))
	}
	st("at", sized("string value at index ?default?", 3, 4, str1(func(x string, a []Value) Res {
		i, r := toInt(a[2])
		if r.Code != OK {
			return r
		}
		if i >= 0 && i < int64(len(x)) {
			return ok(String(x[i : i+1]))
		}
		if len(a) == 4 {
			return ok(a[3])
		}
		return fail(`index out of range "` + mustStr(Int(i)) + `"`)
	})))
	st("range", sized("string value range first ?last?", 3, 4, str1(func(x string, a []Value) Res {
		n, r := intArgs(a[2:]...)
		if r.Code != OK {
			return r
		}
		if len(n) == 1 {
			n = append(n, int64(len(x)))
		}
		out := ""
		for i := max(0, n[0]); i <= n[1] && i < int64(len(x)); i++ {
			out += x[i : i+1]
		}
		return ok(String(out))
	})))
	st("remove", sized("string value remove first last", 4, 4, str1(func(x string, a []Value) Res {
		n, r := intArgs(a[2:]...)
		if r.Code != OK {
			return r
		}
		h, t := clip(n[0], n[1], len(x))
		return ok(String(x[:h] + x[t:]))
	})))
	st("insert", sized("string value insert index value2", 4, 4, str1(func(x string, a []Value) Res {
		n, r := intArgs(a[2])
		if r.Code != OK {
			return r
		}
		y, is := toStr(a[3])
		if !is {
			return fail(noStr)
		}
		h, _ := clip(n[0], n[0], len(x))
		return ok(String(x[:h] + y + x[h:]))
	})))
	st("replace", sized("string value replace first last value2", 5, 5, str1(func(x string, a []Value) Res {
		n, r := intArgs(a[2:4]...)
		if r.Code != OK {
			return r
		}
		y, is := toStr(a[4])
		if !is {
			return fail(noStr)
		}
		h, t := clip(n[0], n[1], len(x))
		return ok(String(x[:h] + y + x[t:]))
	})))
	for name, f := range map[string]func(x, y string) bool{
		"==": func(x, y string) bool { return x == y }, "!=": func(x, y string) bool { return x != y },
		">": func(x, y string) bool { return x > y }, ">=": func(x, y string) bool { return x >= y },
		"<": func(x, y string) bool { return x < y }, "<=": func(x, y string) bool { return x <= y },
	} {
		st(name, func(_ *Ev, a []Value) Res {
			if len(a) != 3 {
				return fail("wrong # operands: should be \"string value1 " + name + " value2\"")
			}
			x, isx := toStr(a[1])
			y, isy := toStr(a[2])
			// one value, without text, is the same as itself
			if n1, is := a[1].(Nil); is && a[2] == Value(n1) {
				return okb(f("", ""))
			}
			if c1, is := a[1].(CmdV); is {
				if c2, is := a[2].(CmdV); is && c1.C == c2.C {
					return okb(f("", ""))
				}
			}
			if !isx || !isy {
				return fail(noStr)
			}
			return okb(f(x, y))
		})
	}

	script := func(v Value) (*Script, Res) {
		switch x := v.(type) {
		case Block:
			return x.S, ok(Nil{})
		case Tuple:
			if len(x.V) == 0 {
				return &Script{}, ok(Nil{})
			}
			t := &Sentence{NoPos: true}
			for _, y := range x.V {
				t.Words = append(t.Words, &Word{Kind: WVal, Val: y})
			}
			return &Script{[]*Sentence{t}}, ok(Nil{})
		}
		return nil, fail("value must be a script or tuple")
	}
	sc := mk("script", func(v Value) Res {
		if b, is := v.(Block); is {
			return ok(b)
		}
		x, r := script(v)
		if r.Code != OK {
			return r
		}
		return ok(Block{S: x})
	})
	scr := func(f func(x *Script, a []Value) Res) execFn {
		return func(_ *Ev, a []Value) Res {
			x, r := script(a[1])
			if r.Code != OK {
				return r
			}
			return f(x, a)
		}
	}
	sc("length", sized("script value length", 2, 2, scr(func(x *Script, _ []Value) Res { return ok(Int(len(x.Sents))) })))
	sc("append", scr(func(x *Script, a []Value) Res {
		if b, is := a[1].(Block); is && len(a) == 2 {
			return ok(b)
		}
		out := &Script{Sents: append([]*Sentence{}, x.Sents...)}
		for _, v := range a[2:] {
			y, r := script(v)
			if r.Code != OK {
				return r
			}
			out.Sents = append(out.Sents, y.Sents...)
		}
		return ok(Block{S: out})
	}))
	// parse reads the text of a block again, or words without meaning
	s.def("parse", func(_ *Ev, a []Value) Res {
		if len(a) != 2 {
			return arity("parse source")
		}
		if b, is := a[1].(Block); is {
			return ok(b)
		}
		x, is := toStr(a[1])
		if !is {
			return fail(noStr)
		}
		out := &Script{}
		if x != "" {
			out.Sents = append(out.Sents, Sen(Lit(x)))
		}
		return ok(Block{S: out, Src: &x})
	})
	sc("split", sized("script value split", 2, 2, scr(func(x *Script, _ []Value) Res {
		out := []Value{}
		for _, t := range x.Sents {
			out = append(out, Block{S: &Script{[]*Sentence{t}}})
		}
		return ok(List{out})
	})))
}

func mustStr(v Value) string { s, _ := toStr(v); return s }

func toMap(v Value) (map[string]Value, Res) {
	if d, is := v.(Dict); is {
		return d.M, ok(Nil{})
	}
	vs, r := array(v)
	if r.Code != OK {
		return nil, r
	}
	if len(vs)%2 != 0 {
		return nil, fail("invalid key-value list")
	}
	m := map[string]Value{}
	for i := 0; i < len(vs); i += 2 {
		k, is := toStr(vs[i])
		if !is {
			return nil, fail("invalid key")
		}
		m[k] = vs[i+1]
	}
	return m, ok(Nil{})
}

func (s *Scope) register(name Value, c *Command) Res {
	n, is := toStr(name)
	if !is {
		return fail("invalid command name")
	}
	s.ctx.cmds[n] = c
	return ok(Nil{})
}

// nameArgs splits the arguments of a definition with an optional name.
func nameArgs(a []Value, n int) (name Value, rest []Value, is bool) {
	switch len(a) {
	case n + 1:
		return nil, a[1:], true
	case n + 2:
		return a[1], a[2:], true
	}
	return nil, nil, false
}

func commands(s *Scope) {
	callable := func(kind string, make func(def *Scope, spec *Argspec, guard Value, body *Script) execFn) {
		s.def(kind, func(e *Ev, a []Value) Res {
			name, rest, is := nameArgs(a, 2)
			if !is {
				return arity(kind + " ?name? argspec body")
			}
			var guard Value
			body := rest[1]
			if t, is := body.(Tuple); is {
				switch len(t.V) {
				case 0:
					return fail("empty body specifier")
				case 2:
					guard, body = t.V[0], t.V[1]
				default:
					return fail("invalid body specifier")
				}
			}
			b, is := body.(Block)
			if !is {
				return fail("body must be a script")
			}
			spec, r := parseSpec(rest[0])
			if r.Code != OK {
				return r
			}
			run := make(e.sc.local(nil), spec, guard, b.S)
			c := newCmd(kind, func(e *Ev, a []Value) Res {
				if !spec.arityOK(len(a) - 1) {
					return arity(spec.sig(a[0], "<"+kind+">"))
				}
				return run(e, a)
			})
			meta := newCmd("metacommand", nil)
			meta.exec = func(_ *Ev, a []Value) Res {
				if len(a) == 1 {
					return ok(c.self)
				}
				sub, is := toStr(a[1])
				if !is {
					return fail("invalid subcommand name")
				}
				switch sub {
				case "subcommands":
					return fixed(a, "<metacommand>", "argspec")
				case "argspec":
					if len(a) != 2 {
						return arity("<metacommand> argspec")
					}
					return ok(SpecV{spec})
				}
				return fail(`unknown subcommand "` + sub + `"`)
			}
			if name != nil {
				if r := e.sc.register(name, c); r.Code != OK {
					return r
				}
			}
			return ok(meta.self)
		})
	}
	guarded := func(e *Ev, guard Value, r Res) Res {
		if r.Code != OK || guard == nil {
			return r
		}
		return e.call([]Value{guard, r.V})
	}
	callable("closure", func(def *Scope, spec *Argspec, guard Value, body *Script) execFn {
		return func(e *Ev, a []Value) Res {
			slots, r := spec.bind(e, def, a[1:])
			if r.Code != OK {
				return r
			}
			return guarded(e.in2(def), guard, e.in2(def.local(slots)).run(body))
		}
	})
	callable("macro", func(_ *Scope, spec *Argspec, guard Value, body *Script) execFn {
		return func(e *Ev, a []Value) Res {
			slots, r := spec.bind(e, e.sc, a[1:])
			if r.Code != OK {
				return r
			}
			return guarded(e, guard, e.in2(e.sc.local(slots)).run(body))
		}
	})
	callable("proc", func(def *Scope, spec *Argspec, guard Value, body *Script) execFn {
		return func(e *Ev, a []Value) Res {
			vals, r := spec.bind(e, def, a[1:])
			if r.Code != OK {
				return r
			}
			sub := def.child()
			for n, v := range vals {
				if v != nil {
					sub.ctx.vars[n] = v
				}
			}
			r = e.in2(sub).runCb(body, func(r Res) Res {
				switch r.Code {
				case OK, RETURN:
					return ok(r.V)
				case ERROR:
					return r
				}
				return unexpected(r.Code)
			})
			return guarded(e.in2(def), guard, r)
		}
	})
	s.def("alias", func(e *Ev, a []Value) Res {
		if len(a) != 3 {
			return arity("alias name command")
		}
		target := a[2]
		c := newCmd("alias", func(e *Ev, a []Value) Res {
			return expandPrefix.exec(e, append([]Value{target}, a[1:]...))
		})
		meta := newCmd("metacommand", nil)
		meta.exec = func(_ *Ev, a []Value) Res {
			if len(a) == 1 {
				return ok(c.self)
			}
			sub, is := toStr(a[1])
			if !is {
				return fail("invalid subcommand name")
			}
			switch sub {
			case "subcommands":
				return fixed(a, "<alias>", "command")
			case "command":
				if len(a) != 2 {
					return arity("<alias> command")
				}
				return ok(target)
			}
			return fail(`unknown subcommand "` + sub + `"`)
		}
		if r := e.sc.register(a[1], c); r.Code != OK {
			return r
		}
		return ok(meta.self)
	})
	// definitions with a body
	defining := func(kind string, n int, sig string, make func(e *Ev, rest []Value, sub *Scope) (*Command, Value, Res)) {
		s.def(kind, func(e *Ev, a []Value) Res {
			name, rest, is := nameArgs(a, n)
			if !is {
				return arity(sig)
			}
			b, is := rest[n-1].(Block)
			if !is {
				return fail("body must be a script")
			}
			sub := e.sc.child()
			c, v, r := make(e, rest, sub)
			if r.Code != OK {
				return r
			}
			return e.in2(sub).runCb(b.S, func(r Res) Res {
				switch r.Code {
				case OK, RETURN:
					if name != nil {
						if r := e.sc.register(name, c); r.Code != OK {
							return r
						}
					}
					if r.Code == RETURN {
						return ok(r.V)
					}
					return ok(v)
				case ERROR:
					return r
				}
				return unexpected(r.Code)
			})
		})
	}
	defining("scope", 1, "scope ?name? body", func(_ *Ev, _ []Value, sub *Scope) (*Command, Value, Res) {
		c := newCmd("scope", nil)
		c.exec = func(e *Ev, a []Value) Res {
			if len(a) == 1 {
				return ok(c.self)
			}
			op, is := toStr(a[1])
			if !is {
				return fail("invalid subcommand name")
			}
			pre := "<scope>"
			if n, is := toStr(a[0]); is {
				pre = n
			}
			switch op {
			case "subcommands":
				return fixed(a, pre, "eval", "call")
			case "eval":
				if len(a) != 3 {
					return arity(pre + " eval body")
				}
				return e.in2(sub).body(a[2])
			case "call":
				if len(a) < 3 {
					return arity(pre + " call cmdname ?arg ...?")
				}
				n, is := toStr(a[2])
				if !is {
					return fail("invalid command name")
				}
				if sub.ctx.cmds[n] == nil {
					return fail(`unknown command "` + n + `"`)
				}
				return e.in2(sub).call(a[2:])
			}
			return fail(`unknown subcommand "` + op + `"`)
		}
		return c, c.self, ok(Nil{})
	})
	defining("namespace", 1, "namespace ?name? body", func(_ *Ev, _ []Value, sub *Scope) (*Command, Value, Res) {
		c := newCmd("namespace", nil)
		c.ns = sub
		meta := newCmd("metacommand", nil)
		meta.ns = sub
		call := func(e *Ev, a []Value, from int, unknown string) Res {
			n, is := toStr(a[from])
			if !is {
				if unknown == "command" {
					return fail("invalid command name")
				}
				return fail("invalid subcommand name")
			}
			k := sub.ctx.cmds[n]
			if k == nil {
				return fail("unknown " + unknown + ` "` + n + `"`)
			}
			return e.in2(sub).call(append([]Value{CmdV{k}}, a[from+1:]...))
		}
		c.exec = func(e *Ev, a []Value) Res {
			if len(a) == 1 {
				return ok(meta.self)
			}
			if op, is := toStr(a[1]); is && op == "subcommands" {
				if len(a) != 2 {
					pre := "<namespace>"
					if n, is := toStr(a[0]); is {
						pre = n
					}
					return arity(pre + " subcommands")
				}
				return e.in.listCommands(a[1], sub)
			}
			return call(e, a, 1, "subcommand")
		}
		meta.exec = func(e *Ev, a []Value) Res {
			if len(a) == 1 {
				return ok(meta.self)
			}
			op, is := toStr(a[1])
			if !is {
				return fail("invalid subcommand name")
			}
			switch op {
			case "subcommands":
				return fixed(a, "<metacommand>", "eval", "call", "import")
			case "eval":
				if len(a) != 3 {
					return arity("<metacommand> eval body")
				}
				return e.in2(sub).body(a[2])
			case "call":
				if len(a) < 3 {
					return arity("<metacommand> call cmdname ?arg ...?")
				}
				return call(e, a, 2, "command")
			case "import":
				if len(a) != 3 && len(a) != 4 {
					return arity("<metacommand> import name ?alias?")
				}
				n, is := toStr(a[2])
				if !is {
					return fail("invalid import name")
				}
				as := n
				if len(a) == 4 {
					if as, is = toStr(a[3]); !is {
						return fail("invalid alias name")
					}
				}
				k := sub.ctx.cmds[n]
				if k == nil {
					return fail(`cannot resolve imported command "` + n + `"`)
				}
				e.sc.ctx.cmds[as] = k
				return ok(Nil{})
			}
			return fail(`unknown subcommand "` + op + `"`)
		}
		return c, meta.self, ok(Nil{})
	})
	defining("ensemble", 2, "ensemble ?name? argspec body", func(_ *Ev, rest []Value, sub *Scope) (*Command, Value, Res) {
		spec, r := parseSpec(rest[0])
		if r.Code != OK {
			return nil, nil, r
		}
		if spec.nopt > 0 || spec.hasRem {
			return nil, nil, fail("ensemble arguments cannot be variadic")
		}
		if spec.hasOpt {
			return nil, nil, fail("ensemble arguments cannot have options")
		}
		ens := &ensemble{spec: spec, sc: sub}
		c := newEnsemble(ens)
		return c, ens.meta, ok(Nil{})
	})
	s.def("coroutine", func(e *Ev, a []Value) Res {
		if len(a) != 2 {
			return arity("coroutine body")
		}
		b, is := a[1].(Block)
		if !is {
			return fail("body must be a script")
		}
		return ok(newCoroutine(e, b.S).self)
	})
	// argument specifications as values
	spec1, _ := parseSpec(List{[]Value{String("value")}})
	ens := &ensemble{spec: spec1, sc: s.child(), one: func(v Value) Res {
		a, r := parseSpec(v)
		if r.Code != OK {
			return r
		}
		return ok(SpecV{a})
	}}
	s.ctx.cmds["argspec"] = newEnsemble(ens)
	ens.sc.ctx.cmds["usage"] = newCmd("argspec usage", func(_ *Ev, a []Value) Res {
		if len(a) != 2 {
			return arity("argspec value usage")
		}
		sp, r := parseSpec(a[1])
		if r.Code != OK {
			return r
		}
		return ok(String(sp.usage()))
	})
	ens.sc.ctx.cmds["set"] = newCmd("argspec set", func(e *Ev, a []Value) Res {
		if len(a) != 3 {
			return arity("argspec value set values")
		}
		sp, r := parseSpec(a[1])
		if r.Code != OK {
			return r
		}
		vs, r := array(a[2])
		if r.Code != OK {
			return r
		}
		if !sp.arityOK(len(vs)) {
			return fail(`wrong # values: should be "` + sp.usage() + `"`)
		}
		m, r := sp.bind(e, e.sc, vs)
		if r.Code != OK {
			return r
		}
		for _, check := range []bool{true, false} {
			for _, g := range sp.Args {
				if v := m[g.Name]; v != nil {
					if r := e.sc.setVar(g.Name, v, check); r.Code != OK {
						return r
					}
				}
			}
		}
		return ok(Nil{})
	})
}

func newCoroutine(e *Ev, body *Script) *Command {
	c := newCmd("coroutine", nil)
	sc := e.sc.local(nil)
	var p *Proc
	running := false
	step := func(v Value) Res {
		running = true
		r := p.Step(v)
		running = false
		switch r.Code {
		case OK, RETURN, YIELD:
			return ok(r.V)
		case ERROR:
			return r
		}
		return unexpected(r.Code)
	}
	c.exec = func(_ *Ev, a []Value) Res {
		if len(a) == 1 {
			return ok(c.self)
		}
		op, is := toStr(a[1])
		if !is {
			return fail("invalid subcommand name")
		}
		switch op {
		case "subcommands":
			return fixed(a, "<coroutine>", "wait", "active", "done", "yield")
		case "active", "done":
			if len(a) != 2 {
				return arity("<coroutine> " + op)
			}
			if op == "done" {
				return okb(p != nil && p.Done)
			}
			return okb(p != nil && !p.Done)
		case "wait":
			if len(a) != 2 {
				return arity("<coroutine> wait")
			}
			if running {
				return fail("coroutine is running")
			}
			if p == nil {
				p = e.in.newProc(func(p *Proc) Res { return (&Ev{e.in, p, sc}).run(body) })
			}
			return step(nil)
		case "yield":
			if len(a) != 2 && len(a) != 3 {
				return arity("<coroutine> yield ?value?")
			}
			if p == nil {
				return fail("coroutine is inactive")
			}
			if p.Done {
				return fail("coroutine is done")
			}
			if running {
				return fail("coroutine is running")
			}
			if len(a) == 3 {
				return step(a[2])
			}
			return step(nil)
		}
		return fail(`unknown subcommand "` + op + `"`)
	}
	return c
}

func modulesIn(s *Scope, dir string) {
	s.def("module", func(e *Ev, a []Value) Res {
		name, rest, is := nameArgs(a, 1)
		if !is {
			return arity("module ?name? body")
		}
		b, is := rest[0].(Block)
		if !is {
			return fail("body must be a script")
		}
		m, r := e.in.newModule(dir, b.S)
		if r.Code != OK {
			return r
		}
		if name != nil {
			if r := e.sc.register(name, m); r.Code != OK {
				return r
			}
		}
		return ok(m.self)
	})
	s.def("import", func(e *Ev, a []Value) Res {
		if len(a) != 2 && len(a) != 3 {
			return arity("import path ?name|imports?")
		}
		path, is := toStr(a[1])
		if !is {
			return fail("invalid path")
		}
		full := filepath.Join(dir, path)
		m := e.in.reg.mods[full]
		if path == "host" {
			m = e.in.host
		} else if k := e.in.native[path]; k != nil {
			m = k
		}
		if m == nil {
			if e.in.reg.reserved[full] {
				return fail("circular imports are forbidden")
			}
			e.in.reg.reserved[full] = true
			sc, msg := e.in.Host.ReadFile(full)
			var r Res
			if sc == nil {
				r = fail(msg)
			} else {
				m, r = e.in.newModule(filepath.Dir(full), sc)
			}
			delete(e.in.reg.reserved, full)
			if r.Code != OK {
				return r
			}
			e.in.reg.mods[full] = m
		}
		if len(a) == 3 {
			switch a[2].(type) {
			case List, Tuple, Block:
				names, r := array(a[2])
				if r.Code != OK {
					return r
				}
				for _, n := range names {
					as := n
					if t, is := n.(Tuple); is {
						if len(t.V) != 2 {
							return fail("invalid (name alias) tuple")
						}
						n, as = t.V[0], t.V[1]
					}
					if r := m.mod.imp(e, n, as); r.Code != OK {
						return r
					}
				}
			default:
				if r := e.sc.register(a[2], m); r.Code != OK {
					return r
				}
			}
		}
		return ok(m.self)
	})
}

// Loaded reports whether a file is loaded as a module.
func (in *Interp) Loaded(path string) bool { return in.reg.mods[path] != nil }

func (m *module) imp(e *Ev, name, as Value) Res {
	n, is := toStr(name)
	if !is {
		return fail("invalid import name")
	}
	al, is := toStr(as)
	if !is {
		return fail("invalid alias name")
	}
	if !m.exports[n] {
		return fail(`unknown export "` + n + `"`)
	}
	c := m.sc.lookup(n)
	if c == nil {
		return fail(`cannot resolve export "` + n + `"`)
	}
	e.sc.ctx.cmds[al] = c
	return ok(Nil{})
}

func (in *Interp) newModule(dir string, body *Script) (*Command, Res) {
	root := &Scope{in, newCtx(nil), nil}
	builtins(root)
	modulesIn(root, dir)
	m := &module{root, map[string]bool{}}
	root.def("export", func(_ *Ev, a []Value) Res {
		if len(a) != 2 {
			return arity("export name")
		}
		n, is := toStr(a[1])
		if !is {
			return fail("invalid export name")
		}
		m.exports[n] = true
		return ok(Nil{})
	})
	e := &Ev{in: in, sc: root}
	r := e.isolatedValue(root, func(e *Ev) Res { return e.run(body) })
	if r.Code != OK {
		return nil, r
	}
	return in.moduleCmd(m), ok(Nil{})
}

func (in *Interp) moduleCmd(m *module) *Command {
	c := newCmd("module", nil)
	c.mod = m
	c.exec = func(e *Ev, a []Value) Res {
		if len(a) == 1 {
			return ok(c.self)
		}
		pre := "<module>"
		if n, is := toStr(a[0]); is {
			pre = n
		}
		op, is := toStr(a[1])
		if !is {
			return fail("invalid subcommand name")
		}
		switch op {
		case "subcommands":
			return fixed(a, pre, "exports", "import")
		case "exports":
			if len(a) != 2 {
				return arity(pre + " exports")
			}
			names := []string{}
			for n := range m.exports {
				names = append(names, n)
			}
			in.Order(names)
			out := []Value{}
			for _, n := range names {
				out = append(out, String(n))
			}
			return ok(List{out})
		case "import":
			if len(a) != 3 && len(a) != 4 {
				return arity(pre + " import name ?alias?")
			}
			return m.imp(e, a[2], a[len(a)-1])
		}
		return fail(`unknown subcommand "` + op + `"`)
	}
	return c
}

// host registers the commands of the surrounding program.
func host(s *Scope) {
	s.def("emit", func(e *Ev, a []Value) Res {
		e.in.Host.Emit(a[1:])
		if len(a) < 2 {
			return ok(Nil{})
		}
		return ok(a[len(a)-1])
	})
	// tick label ?value?: a point where the simulator may inject anything
	s.def("tick", func(e *Ev, a []Value) Res {
		if len(a) < 2 {
			return fail("wrong # args")
		}
		o := e.in.Host.Tick(mustStr(a[1]))
		var v Value = String(o.Value)
		if o.Code == OK && len(a) > 2 {
			v = a[2]
		}
		switch o.Code {
		case YIELD:
			return e.yieldCmd(v)
		case OK:
			return ok(v)
		case BREAK, CONTINUE, PASS:
			return Res{Code: o.Code, V: Nil{}}
		}
		return Res{Code: o.Code, V: v}
	})
	// steps n: a resumable command suspending n times, then returning the
	// tuple of the values it was resumed with
	s.def("steps", func(e *Ev, a []Value) Res {
		if len(a) < 2 {
			return fail("wrong # args")
		}
		n, r := toInt(a[1])
		if r.Code != OK {
			return r
		}
		got := []Value{}
		for i := int64(0); i < n; i++ {
			got = append(got, e.p.yield(Int(i)))
		}
		return ok(Tuple{got})
	})
	// keep value: the host retains the value
	s.def("keep", func(e *Ev, a []Value) Res {
		if len(a) < 2 {
			return fail("wrong # args")
		}
		return ok(a[len(a)-1])
	})
	s.def("env", func(e *Ev, a []Value) Res {
		if len(a) < 2 {
			return fail("wrong # args")
		}
		e.in.Host.Env(mustStr(a[1]))
		return ok(Nil{})
	})
}

// Source adds the command of the command line tool that runs a file; files
// gives the script of a file or the message of the failure.
func (in *Interp) Source(files func(path string) (*Script, string)) {
	in.Root.def("source", func(e *Ev, a []Value) Res {
		if len(a) != 2 {
			return arity("source path")
		}
		path, _ := toStr(a[1])
		s, msg := files(path)
		if s == nil {
			return fail(msg)
		}
		return e.run(s)
	})
}

// Literal gives the display of a string.
func Literal(s string) string {
	t, _ := lex(s)
	if len(t) == 0 {
		return `""`
	}
	if len(t) == 1 && t[0].k == 't' {
		return s
	}
	var b strings.Builder
	b.WriteByte('"')
	for _, c := range []byte(s) {
		if strings.IndexByte("\\$\"({[", c) >= 0 {
			b.WriteByte('\\')
		}
		b.WriteByte(c)
	}
	b.WriteByte('"')
	return b.String()
}

// Waiting reports a text whose last line is to be continued.
func Waiting(src string) bool {
	t, _ := lex(src + "\n")
	return len(t) > 0 && t[len(t)-1].k == '\\'
}

// Names lists the variables of the root scope.
func (in *Interp) Names() []string {
	out := []string{}
	for n := range in.Root.ctx.vars {
		out = append(out, n)
	}
	for n := range in.Root.ctx.consts {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}
