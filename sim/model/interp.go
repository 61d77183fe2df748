package model

import (
	"iter"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
)

// Outcome of a host fault point.
type Outcome struct {
	Code  Code
	Value string
}

// Host is what the surrounding program offers to scripts. The same decisions
// are given to the model and to the real interpreter.
type Host interface {
	Emit(args []Value)
	Tick(label string) Outcome
	Env(label string)                       // something happens to the surroundings
	ReadFile(path string) (*Script, string) // script, or error message
}

type Command struct {
	Kind string
	exec func(e *Ev, args []Value) Res
	self Value
	ens  *ensemble // for ensembles
	mod  *module
	ns   *Scope
}

type Ctx struct {
	parent *Ctx
	consts map[string]Value
	vars   map[string]Value
	cmds   map[string]*Command
}

type Scope struct {
	in    *Interp
	ctx   *Ctx
	slots map[string]Value // nil value: unset local
}

func newCtx(p *Ctx) *Ctx {
	return &Ctx{p, map[string]Value{}, map[string]Value{}, map[string]*Command{}}
}
func (s *Scope) child() *Scope { return &Scope{s.in, newCtx(s.ctx), nil} }
func (s *Scope) local(slots map[string]Value) *Scope {
	return &Scope{s.in, s.ctx, slots}
}
func (s *Scope) resolve(n string) Value {
	if s.slots != nil {
		if v, is := s.slots[n]; is {
			return v
		}
	}
	if v, is := s.ctx.consts[n]; is {
		return v
	}
	if v, is := s.ctx.vars[n]; is {
		return v
	}
	return nil
}
func (s *Scope) lookup(n string) *Command {
	for c := s.ctx; c != nil; c = c.parent {
		if k := c.cmds[n]; k != nil {
			return k
		}
	}
	return nil
}

// Interp is one interpreter: a root scope, a module registry, a host.
type Interp struct {
	Host    Host
	Root    *Scope
	Dir     string
	exports map[string]bool
	reg     *registry
	Steps   int
	Max     int
	procs   map[*Proc]bool
	TraceOn bool
	// Order arranges the keys of an unordered collection (sorted by default)
	Order  func(keys []string)
	host   *Command            // the module of the host commands
	plain  bool                // commands are found by name only
	native map[string]*Command // native modules
}

type registry struct {
	mods     map[string]*Command
	reserved map[string]bool
	Evals    map[string]int
}

func NewInterp(h Host, dir string) *Interp {
	in := &Interp{Host: h, Dir: dir, Max: 200000, procs: map[*Proc]bool{},
		reg: &registry{map[string]*Command{}, map[string]bool{}, map[string]int{}}}
	in.Order = sort.Strings
	in.Root = &Scope{in, newCtx(nil), nil}
	builtins(in.Root)
	modulesIn(in.Root, dir)
	host(in.Root)
	hs := &Scope{in, newCtx(nil), nil}
	host(hs)
	ex := map[string]bool{}
	for n := range hs.ctx.cmds {
		ex[n] = true
	}
	in.host = in.moduleCmd(&module{hs, ex})
	return in
}

// Close ends every process still suspended.
func (in *Interp) Close() {
	for len(in.procs) > 0 {
		for p := range in.procs {
			p.Kill()
		}
	}
}

// Proc is a suspendable activity of the model.
type Proc struct {
	in     *Interp
	next   func() (Res, bool)
	stop   func()
	yieldf func(Res) bool
	inval  Value
	last   Res
	Done   bool
	body   func(p *Proc) Res
}
type killed struct{}
type TooLong struct{}

// Defect is a failure of this model: it says nothing of the code under test.
type Defect struct{ What string }

func (in *Interp) newProc(body func(p *Proc) Res) *Proc {
	p := &Proc{in: in, body: body}
	p.next, p.stop = iter.Pull(func(yield func(Res) bool) {
		defer func() {
			if r := recover(); r != nil {
				if _, is := r.(killed); is {
					return
				}
				if err, is := r.(runtime.Error); is {
					panic(Defect{err.Error() + " " + string(debug.Stack())})
				}
				panic(r)
			}
		}()
		p.yieldf = yield
		r := p.body(p)
		p.Done = true
		p.last = r
	})
	in.procs[p] = true
	return p
}

// NewScript makes a process running a script in the root scope.
func (in *Interp) NewScript(s *Script) *Proc {
	return in.newProc(func(p *Proc) Res {
		e := &Ev{in, p, in.Root}
		return e.run(s)
	})
}

// Step advances the process with the given value for the suspended command
// (nil on the first step or to deliver the yielded value back).
func (p *Proc) Step(v Value) Res {
	if p.Done {
		return p.last
	}
	if v == nil {
		v = p.last.V
	}
	p.inval = v
	r, alive := p.next()
	if alive {
		p.last = r
		return r
	}
	delete(p.in.procs, p)
	return p.last
}
func (p *Proc) Kill() {
	delete(p.in.procs, p)
	p.stop()
	p.Done = true
}
func (p *Proc) yield(v Value) Value {
	if !p.yieldf(Res{Code: YIELD, V: v}) {
		panic(killed{})
	}
	return p.inval
}

// Ev is an evaluation context: which process runs in which scope.
type Ev struct {
	in *Interp
	p  *Proc
	sc *Scope
}

func (e *Ev) in2(sc *Scope) *Ev { return &Ev{e.in, e.p, sc} }

// pstate is the state of one running script.
type pstate struct {
	res       Value
	frames    []Value
	lastShift bool
	lastArgs  []Value
	lastSent  *Sentence
	word      bool // the failure is of a word, not of a command
	raw       bool // and leaves the words it consumed behind
	cmd       bool // the failure is of a command
}

func (ps *pstate) push()       { ps.frames = append(ps.frames, Nil{}) }
func (ps *pstate) pop()        { ps.frames = ps.frames[:len(ps.frames)-1] }
func (ps *pstate) set(v Value) { ps.res = v; ps.frames[len(ps.frames)-1] = v }

// run executes a script as a program of its own in the scope of e.
func (e *Ev) run(s *Script) Res {
	if e.in.plain {
		if m := brokenScript(s); m != "" {
			return fail(m)
		}
	}
	return e.runCb(s, nil)
}

// runCb is run followed by the construct's treatment of the result. Both
// belong to the same level of an error trace.
func (e *Ev) runCb(s *Script, cb func(Res) Res) Res {
	ps := &pstate{res: Nil{}, frames: []Value{Nil{}}}
	v, r := e.inline(s, ps)
	if r.Code == OK {
		r = ok(v)
	}
	return e.leave(ps, r, cb)
}
func (e *Ev) leave(ps *pstate, r Res, cb func(Res) Res) Res {
	done := r.Code == OK
	if cb != nil {
		r = cb(r)
	}
	if r.isErr() && e.in.TraceOn {
		l := Level{Args: append([]Value{}, ps.lastArgs...)}
		if ps.word || done {
			// no command of this level is active
			l.Args, l.AnyPos, l.Unknown = nil, true, ps.raw
		} else if ps.lastSent != nil && !ps.lastSent.NoPos {
			l.Line, l.Col, l.File = ps.lastSent.Line, ps.lastSent.Col, ps.lastSent.File
		} else {
			l.NoPos = true
		}
		r.Trace = append(append([]Level{}, r.Trace...), l)
	}
	return r
}

// call executes one command line as a program of its own.
func (e *Ev) call(args []Value) Res { return e.callCb(args, nil) }
func (e *Ev) callCb(args []Value, cb func(Res) Res) Res {
	ps := &pstate{res: Nil{}, frames: []Value{Nil{}}}
	ps.lastArgs = args
	r := e.command(ps, append([]Value{}, args...))
	if r.Code == OK {
		r = ok(ps.res)
	}
	return e.leave(ps, r, cb)
}

func (e *Ev) inline(s *Script, ps *pstate) (Value, Res) {
	if len(s.Sents) == 0 {
		return Nil{}, ok(Nil{})
	}
	for _, t := range s.Sents {
		ps.push()
		args, r := e.words(t.Words, ps)
		if r.Code != OK {
			if !ps.cmd {
				ps.word = true
			}
			return nil, r
		}
		ps.pop()
		ps.lastArgs = args
		ps.lastSent = t
		r = e.command(ps, args)
		if r.Code != OK {
			ps.cmd = true
			return nil, r
		}
	}
	return ps.res, ok(Nil{})
}

func (in *Interp) step() {
	in.Steps++
	if in.Steps > in.Max {
		panic(TooLong{})
	}
}

func (e *Ev) command(ps *pstate, args []Value) Res {
	e.in.step()
	for len(args) > 0 {
		cmd, r := e.sc.resolveCmd(args[0])
		if r.Code != OK {
			return r
		}
		wasShift := ps.lastShift
		ps.lastShift = false
		switch cmd.Kind {
		case "^":
			return ok(Nil{})
		case "|>":
			ps.lastShift = true
			if len(args) < 2 || wasShift {
				return ok(Nil{})
			}
			args[0] = args[1]
			args[1] = ps.frames[len(ps.frames)-1]
			continue
		}
		bound(args...)
		r = cmd.exec(e, args)
		bound(r.V)
		if r.Code != OK {
			return r
		}
		ps.set(r.V)
		return ok(Nil{})
	}
	return ok(Nil{})
}

// Scripts whose values grow without end are not worth running.
const maxSize = 20000

func bound(vs ...Value) {
	n := 0
	for _, v := range vs {
		if n += size(v, maxSize-n); n >= maxSize {
			panic(TooLong{})
		}
	}
}
func size(v Value, max int) int {
	n := 1
	all := func(vs []Value) {
		for _, v := range vs {
			if n >= max {
				return
			}
			n += size(v, max-n)
		}
	}
	switch x := v.(type) {
	case String:
		n += len(x) / 8
	case List:
		all(x.V)
	case Tuple:
		all(x.V)
	case Dict:
		for _, v := range x.M {
			if n >= max {
				break
			}
			n += 1 + size(v, max-n)
		}
	case QualV:
		n += size(x.Src, max-n)
		for _, s := range x.Sels {
			all(s.V)
		}
	}
	return n
}

func (s *Scope) resolveCmd(v Value) (*Command, Res) {
	if s.in.plain {
		n, is := toStr(v)
		if c := s.lookup(n); c != nil {
			return c, ok(Nil{})
		}
		if !is {
			return nil, fail("invalid command name")
		}
		return nil, fail(`cannot resolve command "` + n + `"`)
	}
	switch x := v.(type) {
	case Tuple:
		return expandPrefix, ok(Nil{})
	case CmdV:
		return x.C, ok(Nil{})
	case Int, Real:
		return numberCmd, ok(Nil{})
	}
	n, is := toStr(v)
	if !is {
		return nil, fail("invalid command name")
	}
	if c := s.lookup(n); c != nil {
		return c, ok(Nil{})
	}
	if isNumStr(n) {
		return numberCmd, ok(Nil{})
	}
	return nil, fail(`cannot resolve command "` + n + `"`)
}

func (e *Ev) words(ws []*Word, ps *pstate) ([]Value, Res) {
	out := []Value{}
	for _, w := range ws {
		v, r := e.word(w, ps)
		if r.Code != OK {
			return nil, r
		}
		if w.Expand {
			if t, is := v.(Tuple); is {
				out = append(out, t.V...)
				continue
			}
		}
		out = append(out, v)
	}
	return out, ok(Nil{})
}
func (e *Ev) flat(s *Script, ps *pstate) ([]Value, Res) {
	ps.push()
	out := []Value{}
	for _, t := range s.Sents {
		vs, r := e.words(t.Words, ps)
		if r.Code != OK {
			return nil, r
		}
		out = append(out, vs...)
	}
	ps.pop()
	return out, ok(Nil{})
}
func (e *Ev) word(w *Word, ps *pstate) (Value, Res) {
	switch w.Kind {
	case WLit:
		return String(w.Text), ok(Nil{})
	case WVal, WRaw:
		return w.Val, ok(Nil{})
	case WBlk:
		return Block{w.Sub, w.Src}, ok(Nil{})
	case WVar:
		v := e.sc.resolve(w.Text)
		if v == nil {
			return nil, fail(`cannot resolve variable "` + w.Text + `"`)
		}
		return e.levels(v, w, ps)
	case WExpr:
		v, r := e.inline(w.Sub, ps)
		if r.Code != OK {
			return nil, r
		}
		return e.levels(v, w, ps)
	case WHere:
		return String(w.Text), ok(Nil{})
	case WTag:
		return String(w.Text + "\n"), ok(Nil{})
	case WTup:
		vs, r := e.flat(w.Sub, ps)
		if r.Code != OK {
			return nil, r
		}
		return Tuple{vs}, ok(Nil{})
	case WTVar:
		vs, r := e.flat(w.Sub, ps)
		if r.Code != OK {
			return nil, r
		}
		v, r := e.resolveValue(Tuple{vs})
		if r.Code != OK {
			return nil, r
		}
		return e.levels(v, w, ps)
	case WQual:
		q := QualV{Src: String(w.Text)}
		if w.Sub != nil {
			vs, r := e.flat(w.Sub, ps)
			if r.Code != OK {
				return nil, r
			}
			q.Src = Tuple{vs}
		}
		for _, s := range w.Sel {
			if s.Key {
				ks, r := e.flat(s.Sub, ps)
				if r.Code != OK {
					return nil, r
				}
				if len(ks) == 0 {
					return nil, fail("empty selector")
				}
				q.Sels = append(q.Sels, QSel{true, ks})
			} else {
				v, r := e.inline(s.Sub, ps)
				if r.Code != OK {
					return nil, r
				}
				if _, is := v.(Nil); is {
					return nil, fail("invalid index")
				}
				q.Sels = append(q.Sels, QSel{false, []Value{v}})
			}
		}
		return q, ok(Nil{})
	case WStr, WCmp:
		ps.push()
		var b strings.Builder
		vals := []Value{}
		for _, p := range w.Parts {
			v, r := e.word(p, ps)
			if r.Code != OK {
				return nil, r
			}
			vals = append(vals, v)
		}
		ps.pop()
		for _, v := range vals {
			s, is := toStr(v)
			if !is {
				ps.raw = !ps.cmd
				return nil, fail(noStr)
			}
			b.WriteString(s)
		}
		return String(b.String()), ok(Nil{})
	}
	panic("model: bad word")
}
func (e *Ev) sels(v Value, ss []Sel, ps *pstate) (Value, Res) {
	for _, s := range ss {
		var r Res
		if s.Key {
			var ks []Value
			ks, r = e.flat(s.Sub, ps)
			if r.Code != OK {
				return nil, r
			}
			v, r = selKeys(v, ks)
			if r.Code != OK {
				ps.raw = len(ks) > 0
			}
		} else {
			var i Value
			i, r = e.inline(s.Sub, ps)
			if r.Code != OK {
				return nil, r
			}
			v, r = selIndex(v, i)
		}
		if r.Code != OK {
			return nil, r
		}
	}
	return v, ok(Nil{})
}

// levels applies the selectors of a word, then resolves what they give as often
// as the word says.
func (e *Ev) levels(v Value, w *Word, ps *pstate) (Value, Res) {
	v, r := e.sels(v, w.Sel, ps)
	for i := 0; i < w.Lev && r.Code == OK; i++ {
		v, r = e.resolveValue(v)
	}
	return v, r
}
func (e *Ev) resolveValue(v Value) (Value, Res) {
	switch x := v.(type) {
	case Tuple:
		out := []Value{}
		for _, y := range x.V {
			z, r := e.resolveValue(y)
			if r.Code != OK {
				return nil, r
			}
			out = append(out, z)
		}
		return Tuple{out}, ok(Nil{})
	case QualV:
		z, r := e.resolveValue(x.Src)
		if r.Code != OK {
			return nil, r
		}
		for _, s := range x.Sels {
			if s.Key {
				z, r = selKeys(z, s.V)
			} else {
				z, r = selIndex(z, s.V[0])
			}
			if r.Code != OK {
				return nil, r
			}
		}
		return z, ok(Nil{})
	}
	n, is := toStr(v)
	if !is {
		return nil, fail("invalid variable name")
	}
	z := e.sc.resolve(n)
	if z == nil {
		return nil, fail(`cannot resolve variable "` + n + `"`)
	}
	return z, ok(Nil{})
}
func selIndex(v Value, i Value) (Value, Res) {
	if _, is := i.(Nil); is {
		return nil, fail("invalid index")
	}
	switch x := v.(type) {
	case List:
		n, r := toInt(i)
		if r.Code != OK {
			return nil, r
		}
		if n < 0 || n >= int64(len(x.V)) {
			return nil, fail(`index out of range "` + strconv.FormatInt(n, 10) + `"`)
		}
		return x.V[n], ok(Nil{})
	case String:
		n, r := toInt(i)
		if r.Code != OK {
			return nil, r
		}
		if n < 0 || n >= int64(len(x)) {
			return nil, fail(`index out of range "` + strconv.FormatInt(n, 10) + `"`)
		}
		return String(x[n : n+1]), ok(Nil{})
	case Tuple:
		out := []Value{}
		for _, y := range x.V {
			z, r := selIndex(y, i)
			if r.Code != OK {
				return nil, r
			}
			out = append(out, z)
		}
		return Tuple{out}, ok(Nil{})
	}
	return nil, fail("value is not index-selectable")
}
func selKeys(v Value, ks []Value) (Value, Res) {
	if len(ks) == 0 {
		return nil, fail("empty selector")
	}
	for _, k := range ks {
		var r Res
		v, r = selKey(v, k)
		if r.Code != OK {
			return nil, r
		}
	}
	return v, ok(Nil{})
}
func selKey(v Value, k Value) (Value, Res) {
	switch x := v.(type) {
	case Dict:
		s, is := toStr(k)
		if !is {
			return nil, fail("invalid key")
		}
		y, is := x.M[s]
		if !is {
			return nil, fail("unknown key")
		}
		return y, ok(Nil{})
	case Tuple:
		out := []Value{}
		for _, y := range x.V {
			z, r := selKey(y, k)
			if r.Code != OK {
				return nil, r
			}
			out = append(out, z)
		}
		return Tuple{out}, ok(Nil{})
	}
	return nil, fail("value is not key-selectable")
}

// isolated runs code where suspension is not supported: the code is abandoned
// at its first suspension and the outcome says so.
func (e *Ev) isolated(sc *Scope, f func(e *Ev) Res) Res {
	p := e.in.newProc(func(p *Proc) Res { return f(&Ev{e.in, p, sc}) })
	r := p.Step(Nil{})
	if r.Code == YIELD {
		p.Kill()
		return Res{Code: YIELD, V: r.V}
	}
	return r
}
func (e *Ev) isolatedValue(sc *Scope, f func(e *Ev) Res) Res {
	r := e.isolated(sc, f)
	switch r.Code {
	case OK, ERROR:
		return r
	}
	return unexpected(r.Code)
}

// array converts a value to a sequence.
func array(v Value) ([]Value, Res) {
	switch x := v.(type) {
	case List:
		return x.V, ok(Nil{})
	case Tuple:
		return x.V, ok(Nil{})
	case Block:
		out := []Value{}
		e := &Ev{}
		for _, t := range x.S.Sents {
			for _, w := range t.Words {
				v, r := e.static(w)
				if r.Code != OK {
					return nil, fail("invalid list")
				}
				out = append(out, v)
			}
		}
		return out, ok(Nil{})
	}
	return nil, fail("invalid list")
}

// static evaluates a word without any resolver.
func (e *Ev) static(w *Word) (Value, Res) {
	switch w.Kind {
	case WLit:
		return String(w.Text), ok(Nil{})
	case WVal:
		return w.Val, ok(Nil{})
	case WHere:
		return String(w.Text), ok(Nil{})
	case WTag:
		return String(w.Text + "\n"), ok(Nil{})
	case WExpr:
		if len(w.Sub.Sents) == 0 {
			return Nil{}, ok(Nil{})
		}
	case WBlk:
		return Block{w.Sub, w.Src}, ok(Nil{})
	case WTup:
		out := []Value{}
		for _, t := range w.Sub.Sents {
			for _, x := range t.Words {
				v, r := e.static(x)
				if r.Code != OK {
					return nil, r
				}
				out = append(out, v)
			}
		}
		return Tuple{out}, ok(Nil{})
	case WStr:
		s := ""
		for _, p := range w.Parts {
			if p.Kind != WLit {
				return nil, fail("invalid list")
			}
			s += p.Text
		}
		return String(s), ok(Nil{})
	}
	return nil, fail("invalid list")
}

// Variables of the root scope, sorted by name.
func (in *Interp) Vars() string {
	names := []string{}
	for n := range in.Root.ctx.vars {
		names = append(names, n)
	}
	for n := range in.Root.ctx.consts {
		names = append(names, n)
	}
	sort.Strings(names)
	var b strings.Builder
	for _, n := range names {
		b.WriteString(n + "=" + Show(in.Root.resolve(n)) + " ")
	}
	return b.String()
}
