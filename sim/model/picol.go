package model

import (
	"sort"
	"strconv"
)

// Reference model of the Picol dialect: the same words, other commands.
//
// Names are plain: variables belong to the call that sets them, commands are
// looked up through the calls that led here.

// Picol is one Picol scope.
type Picol struct {
	in *Interp
	sc *Scope
}

// NewPicol makes a scope with the Picol commands, or an empty child of one.
func NewPicol(h Host, parent *Picol, max int) *Picol {
	if parent != nil {
		return &Picol{parent.in, &Scope{parent.in, newCtx(parent.sc.ctx), nil}}
	}
	in := &Interp{Host: h, Max: max, Order: sort.Strings, plain: true}
	in.Root = &Scope{in, newCtx(nil), nil}
	picolCommands(in.Root)
	return &Picol{in, in.Root}
}

// Def adds a command of the host.
func (p *Picol) Def(name string, f func(args []Value) Res) {
	p.sc.def(name, func(e *Ev, a []Value) Res { return f(a) })
}
func (p *Picol) Run(s *Script) Res { return (&Ev{p.in, nil, p.sc}).run(s) }
func (p *Picol) Word(w *Word) Res {
	if m := broken(w); m != "" {
		return fail(m)
	}
	v, r := (&Ev{p.in, nil, p.sc}).word(w, &pstate{res: Nil{}, frames: []Value{Nil{}}})
	if r.Code == OK {
		r = ok(v)
	}
	return r
}
func (p *Picol) Set(name string, v Value) { p.sc.ctx.vars[name] = v }

// State displays the variables and the names of the commands.
func (p *Picol) State() string {
	names := []string{}
	for n := range p.sc.ctx.vars {
		names = append(names, n)
	}
	sort.Strings(names)
	out := ""
	for _, n := range names {
		out += strconv.Quote(n) + "=" + Show(p.sc.ctx.vars[n]) + " "
	}
	cmds := []string{}
	for n := range p.sc.ctx.cmds {
		cmds = append(cmds, n)
	}
	sort.Strings(cmds)
	out += "|"
	for _, n := range cmds {
		out += " " + strconv.Quote(n)
	}
	return out
}

// broken tells what is wrong with a word no program can be made of.
func broken(w *Word) string {
	if w.Kind == WBad {
		return "invalid word structure"
	}
	if w.Kind == WBlk {
		return ""
	}
	for _, p := range w.Parts {
		if m := broken(p); m != "" {
			return m
		}
	}
	if w.Sub != nil {
		return brokenScript(w.Sub)
	}
	return ""
}
func brokenScript(s *Script) string {
	for _, t := range s.Sents {
		for _, w := range t.Words {
			if m := broken(w); m != "" {
				return m
			}
		}
	}
	return ""
}

// Text is the text of a value, if it has one.
func Text(v Value) string { return mustStr(v) }

// truth is the condition of a test.
func (e *Ev) truth(v Value) (bool, Res) {
	switch x := v.(type) {
	case Bool:
		return bool(x), ok(Nil{})
	case Int:
		return x != 0, ok(Nil{})
	case Block:
		r := e.run(x.S)
		if r.Code != OK {
			return false, r
		}
		return toBool(r.V)
	}
	s := mustStr(v)
	switch s {
	case "true", "yes":
		return true, ok(Nil{})
	case "false", "no":
		return false, ok(Nil{})
	}
	i, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		return false, fail(`invalid boolean "` + s + `"`)
	}
	return i != 0, ok(Nil{})
}

const noBody = "body must be a script"

func picolCommands(s *Scope) {
	empty := ok(String(""))
	something := func(v Value) Res {
		if _, is := v.(Nil); is {
			return empty
		}
		return ok(v)
	}
	sum := func(op string, min int, usage string, one func(float64) float64, f func(a, b float64) float64) {
		s.def(op, func(e *Ev, a []Value) Res {
			if len(a)-1 < min {
				return arity(op + " " + usage)
			}
			t := 0.0
			for i, v := range a[1:] {
				n, r := toFloat(v)
				if r.Code != OK {
					return r
				}
				if i == 0 {
					t = n
				} else {
					t = f(t, n)
				}
			}
			if len(a) == 2 {
				t = one(t)
			}
			return ok(Real(t))
		})
	}
	same := func(x float64) float64 { return x }
	sum("+", 1, "arg ?arg ...?", same, func(a, b float64) float64 { return a + b })
	sum("-", 1, "arg ?arg ...?", func(x float64) float64 { return -x }, func(a, b float64) float64 { return a - b })
	sum("*", 1, "arg ?arg ...?", same, func(a, b float64) float64 { return a * b })
	sum("/", 2, "arg arg ?arg ...?", same, func(a, b float64) float64 { return a / b })
	compare := func(op string, f func(a, b float64) bool) {
		s.def(op, func(e *Ev, a []Value) Res {
			if len(a) != 3 {
				return arity(op + " arg arg")
			}
			x, r := toFloat(a[1])
			if r.Code != OK {
				return r
			}
			y, r := toFloat(a[2])
			if r.Code != OK {
				return r
			}
			return okb(f(x, y))
		})
	}
	compare(">", func(a, b float64) bool { return a > b })
	compare(">=", func(a, b float64) bool { return a >= b })
	compare("<", func(a, b float64) bool { return a < b })
	compare("<=", func(a, b float64) bool { return a <= b })
	equal := func(op string, want bool) {
		s.def(op, func(e *Ev, a []Value) Res {
			if len(a) != 3 {
				return arity(op + " arg arg")
			}
			return okb((mustStr(a[1]) == mustStr(a[2])) == want)
		})
	}
	equal("==", true)
	equal("!=", false)
	s.def("!", func(e *Ev, a []Value) Res {
		if len(a) != 2 {
			return arity("! arg")
		}
		b, r := e.truth(a[1])
		if r.Code != OK {
			return r
		}
		return okb(!b)
	})
	all := func(op string, stop bool) {
		s.def(op, func(e *Ev, a []Value) Res {
			if len(a) < 2 {
				return arity(op + " arg ?arg ...?")
			}
			for _, v := range a[1:] {
				b, r := e.truth(v)
				if r.Code != OK {
					return r
				}
				if b == stop {
					return okb(stop)
				}
			}
			return okb(!stop)
		})
	}
	all("&&", false)
	all("||", true)
	s.def("if", func(e *Ev, a []Value) Res {
		if len(a) != 3 && len(a) != 5 {
			return arity("if test script1 ?else script2?")
		}
		b, r := e.truth(a[1])
		if r.Code != OK {
			return r
		}
		var body Value
		switch {
		case b:
			body = a[2]
		case len(a) == 3:
			return empty
		default:
			body = a[4]
		}
		x, is := body.(Block)
		if !is {
			return fail(noBody)
		}
		r = e.run(x.S)
		if r.Code != OK {
			return r
		}
		return something(r.V)
	})
	loop := func(e *Ev, test Value, body, next *Script) Res {
		for {
			b, r := e.truth(test)
			if r.Code != OK {
				return r
			}
			if !b {
				return empty
			}
			e.in.step()
			r = e.run(body)
			if r.Code == BREAK {
				return empty
			}
			if r.Code != OK && r.Code != CONTINUE {
				return r
			}
			if next != nil {
				if r = e.run(next); r.Code != OK {
					return r
				}
			}
		}
	}
	s.def("for", func(e *Ev, a []Value) Res {
		if len(a) != 5 {
			return arity("for start test next command")
		}
		start, is1 := a[1].(Block)
		next, is2 := a[3].(Block)
		body, is3 := a[4].(Block)
		if !is1 || !is2 || !is3 {
			return fail(noBody)
		}
		if r := e.run(start.S); r.Code != OK {
			return r
		}
		return loop(e, a[2], body.S, next.S)
	})
	s.def("while", func(e *Ev, a []Value) Res {
		if len(a) != 3 {
			return arity("while test script")
		}
		body, is := a[2].(Block)
		if !is {
			return fail(noBody)
		}
		return loop(e, a[1], body.S, nil)
	})
	s.def("set", func(e *Ev, a []Value) Res {
		switch len(a) {
		case 2:
			if v := e.sc.resolve(mustStr(a[1])); v != nil {
				return ok(v)
			}
			return fail(`can't read "` + mustStr(a[1]) + `": no such variable`)
		case 3:
			e.sc.ctx.vars[mustStr(a[1])] = a[2]
			return ok(a[2])
		}
		return arity("set varName ?newValue?")
	})
	s.def("incr", func(e *Ev, a []Value) Res {
		if len(a) != 2 && len(a) != 3 {
			return arity("incr varName ?increment?")
		}
		by, r := int64(1), ok(Nil{})
		if len(a) == 3 {
			if by, r = toInt(a[2]); r.Code != OK {
				return r
			}
		}
		n := int64(0)
		if v := e.sc.resolve(mustStr(a[1])); v != nil {
			if n, r = toInt(v); r.Code != OK {
				return r
			}
		}
		e.sc.ctx.vars[mustStr(a[1])] = Int(n + by)
		return ok(Int(n + by))
	})
	s.def("proc", func(e *Ev, a []Value) Res {
		if len(a) != 4 {
			return arity("proc name args body")
		}
		specs, r := picolSpecs(a[2])
		if r.Code != OK {
			return r
		}
		body, is := a[3].(Block)
		if !is {
			return fail(noBody)
		}
		e.sc.def(mustStr(a[1]), func(e *Ev, a []Value) Res {
			c := e.sc.child()
			given := a[1:]
			usage := func() Res {
				u := mustStr(a[0])
				for i, p := range specs {
					switch {
					case i == len(specs)-1 && p.name == "args":
						u += " ?arg ...?"
					case p.def != nil:
						u += " ?" + p.name + "?"
					default:
						u += " " + p.name
					}
				}
				return arity(u)
			}
			for i, p := range specs {
				switch {
				case i == len(specs)-1 && p.name == "args":
					c.ctx.vars["args"] = Tuple{append([]Value{}, given...)}
					given = nil
				case len(given) > 0:
					c.ctx.vars[p.name] = given[0]
					given = given[1:]
				case p.def != nil:
					c.ctx.vars[p.name] = p.def
				default:
					return usage()
				}
			}
			if len(given) > 0 {
				return usage()
			}
			r := e.in2(c).run(body.S)
			if r.Code == ERROR {
				return r
			}
			return something(r.V)
		})
		return empty
	})
	s.def("return", func(e *Ev, a []Value) Res {
		switch len(a) {
		case 1:
			return Res{Code: RETURN, V: String("")}
		case 2:
			return Res{Code: RETURN, V: a[1]}
		}
		return arity("return ?result?")
	})
	control := func(n string, c Code) {
		s.def(n, func(e *Ev, a []Value) Res {
			if len(a) != 1 {
				return arity(n)
			}
			return Res{Code: c, V: Nil{}}
		})
	}
	control("break", BREAK)
	control("continue", CONTINUE)
	s.def("error", func(e *Ev, a []Value) Res {
		if len(a) != 2 {
			return arity("error message")
		}
		return Res{Code: ERROR, V: a[1]}
	})
}

type picolSpec struct {
	name string
	def  Value
}

// picolList gives the values a list of arguments is written as.
func picolList(v Value) ([]Value, Res) {
	switch x := v.(type) {
	case Tuple:
		return x.V, ok(Nil{})
	case Block:
		out := []Value{}
		for _, t := range x.S.Sents {
			for _, w := range t.Words {
				if m := broken(w); m != "" {
					return nil, fail(m)
				}
				v, r := alone(w)
				if r.Code != OK {
					return nil, r
				}
				out = append(out, v)
			}
		}
		return out, ok(Nil{})
	}
	return nil, fail("unsupported list format")
}

// alone evaluates a word where there are neither variables nor commands.
func alone(w *Word) (Value, Res) {
	switch w.Kind {
	case WLit:
		return String(w.Text), ok(Nil{})
	case WVal:
		return w.Val, ok(Nil{})
	case WBlk:
		return Block{w.Sub, w.Src}, ok(Nil{})
	case WVar:
		return nil, fail("no variable resolver")
	case WExpr:
		for _, t := range w.Sub.Sents {
			for _, x := range t.Words {
				if _, r := alone(x); r.Code != OK {
					return nil, r
				}
			}
			return nil, fail("no command resolver")
		}
		return Nil{}, ok(Nil{})
	case WTup:
		out := []Value{}
		for _, t := range w.Sub.Sents {
			for _, x := range t.Words {
				v, r := alone(x)
				if r.Code != OK {
					return nil, r
				}
				out = append(out, v)
			}
		}
		return Tuple{out}, ok(Nil{})
	}
	out := ""
	for _, p := range w.Parts {
		v, r := alone(p)
		if r.Code != OK {
			return nil, r
		}
		s, is := toStr(v)
		if !is {
			return nil, fail(noStr)
		}
		out += s
	}
	return String(out), ok(Nil{})
}

func picolSpecs(v Value) ([]picolSpec, Res) {
	vs, r := picolList(v)
	if r.Code != OK {
		return nil, r
	}
	out := []picolSpec{}
	for _, v := range vs {
		b, is := v.(Block)
		if !is {
			out = append(out, picolSpec{name: mustStr(v)})
			continue
		}
		fs, r := picolList(b)
		if r.Code != OK {
			return nil, r
		}
		if len(fs) == 0 || mustStr(fs[0]) == "" {
			return nil, fail("argument with no name")
		}
		switch len(fs) {
		case 1:
			out = append(out, picolSpec{name: mustStr(fs[0])})
		case 2:
			out = append(out, picolSpec{mustStr(fs[0]), fs[1]})
		default:
			return nil, fail(`too many fields in argument specifier "` + mustStr(v) + `"`)
		}
	}
	return out, ok(Nil{})
}

// Embed adds the command of the command line tool that runs a Picol script in
// a scope of its own.
func (in *Interp) Embed() {
	in.Root.def("picol", func(e *Ev, a []Value) Res {
		if len(a) != 2 {
			return arity("picol script")
		}
		b, is := a[1].(Block)
		if !is {
			return fail("invalid script")
		}
		return NewPicol(in.Host, nil, 4000).Run(b.S)
	})
}
