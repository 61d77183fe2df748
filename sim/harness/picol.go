package main

import (
	"fmt"
	"helena/core"
	"helena/picol_dialect"
	. "helena/verifsim/model"
	"helena/verifsim/rt"
	"sort"
	"strconv"
	"strings"
)

// Picol scripts (P22): a host evaluates scripts, sentences and words in several
// scopes, with outcomes of every kind injected at its fault points, in step
// with the reference model.

// psys is one Picol scope of the code under test and its counterpart.
type psys struct {
	id   int
	real *picol_dialect.PicolScope
	m    *Picol
	pl   *pplace
}

// phost is what the host keeps of a run.
type phost struct {
	r      *Run
	w      *World
	n      map[string]int
	ev     []string
	mh     *mhost
	kept   []kept
	scopes []*psys
	runs   []pscript
	g      *pgen
}
type pscript struct {
	s    *Script
	real core.Script
	text string
}

func (h *phost) host(s *picol_dialect.PicolScope) {
	s.Commands["emit"] = hostCmd(func(a []core.Value) core.Result {
		h.ev = append(h.ev, ShowReals(a[1:]))
		for _, v := range a[1:] {
			h.kept = append(h.kept, kept{v, DeepReal(v), fmt.Sprintf("value of event %d", len(h.ev))})
		}
		if len(a) < 2 {
			return core.OK(core.NIL)
		}
		return core.OK(a[len(a)-1])
	})
	s.Commands["tick"] = hostCmd(func(a []core.Value) core.Result {
		if len(a) < 2 {
			return core.ERROR("wrong # args")
		}
		_, l := core.ValueToString(a[1])
		k := h.n[l]
		h.n[l]++
		o := h.w.decide(l, k)
		var v core.Value = core.STR(o.Value)
		if o.Code == OK && len(a) > 2 {
			v = a[2]
		}
		switch o.Code {
		case RETURN:
			return core.RETURN(v)
		case ERROR:
			return core.ERROR(o.Value)
		case BREAK:
			return core.BREAK(core.NIL)
		case CONTINUE:
			return core.CONTINUE(core.NIL)
		}
		return core.OK(v)
	})
}
func (h *phost) mhost(p *Picol) {
	p.Def("emit", func(a []Value) Res {
		h.mh.Emit(a[1:])
		if len(a) < 2 {
			return Res{V: Nil{}}
		}
		return Res{V: a[len(a)-1]}
	})
	p.Def("tick", func(a []Value) Res {
		if len(a) < 2 {
			return Res{Code: ERROR, V: String("wrong # args")}
		}
		o := h.mh.Tick(Text(a[1]))
		switch {
		case o.Code == OK && len(a) > 2:
			return Res{V: a[2]}
		case o.Code == BREAK || o.Code == CONTINUE:
			return Res{Code: o.Code, V: Nil{}}
		}
		return Res{Code: o.Code, V: String(o.Value)}
	})
}

func (h *phost) add(parent *psys) *psys {
	x := &psys{id: len(h.scopes), pl: &pplace{}}
	if parent == nil {
		x.real = picol_dialect.NewPicolScope(nil)
		picol_dialect.InitPicolCommands(x.real)
		h.host(x.real)
		x.m = NewPicol(h.mh, nil, 4000)
		h.mhost(x.m)
		h.r.logf("scope %d", x.id)
	} else {
		x.real = picol_dialect.NewPicolScope(parent.real)
		x.m = NewPicol(h.mh, parent.m, 0)
		x.pl.procs = append(x.pl.procs, parent.pl.procs...)
		h.r.logf("scope %d, child of scope %d", x.id, parent.id)
	}
	set := func(n string, v Value) {
		x.real.Variables[n] = ToReal(v)
		x.m.Set(n, v)
	}
	set("a", Int(1))
	set("b", String("2"))
	set("c", Real(1.5))
	set("s", String("foo"))
	x.pl.vars = []string{"a", "b", "c", "s"}
	if h.r.Is(2) {
		set("t", Tuple{V: []Value{Int(4), String("x")}})
		set("l", List{V: []Value{Int(1)}})
		set("d", Dict{M: map[string]Value{"k": Int(1)}})
		set("n", Nil{})
		set("y", Bool(true))
		x.pl.odd = []string{"t", "l", "d", "n", "y"}
	}
	h.scopes = append(h.scopes, x)
	return x
}

func (x *psys) state() string {
	o := safely(func() Out {
		names := []string{}
		for n := range x.real.Variables {
			names = append(names, n)
		}
		sort.Strings(names)
		out := ""
		for _, n := range names {
			out += strconv.Quote(n) + "=" + ShowReal(x.real.Variables[n]) + " "
		}
		names = nil
		for n := range x.real.Commands {
			names = append(names, n)
		}
		sort.Strings(names)
		out += "|"
		for _, n := range names {
			out += " " + strconv.Quote(n)
		}
		return Out{Text: out}
	})
	return o.Text + o.Crash
}

// do compares one evaluation.
func (h *phost) do(what string, x *psys, model func() Res, real func() core.Result) *Violation {
	m0, r0 := len(h.mh.Ev), len(h.ev)
	mr := model()
	o := safely(func() Out {
		r := real()
		out := Out{Code: core.RESULT_CODE_NAME(r)}
		switch r.Code {
		case core.ResultCode_OK, core.ResultCode_RETURN, core.ResultCode_ERROR:
			out.Text = ShowReal(r.Value)
			h.kept = append(h.kept, kept{r.Value, DeepReal(r.Value), "result of " + what})
		}
		return out
	})
	val := ""
	switch mr.Code {
	case OK, RETURN, ERROR:
		val = Show(mr.V)
	}
	h.r.count("picol: " + mr.Code.String())
	h.r.logf("  %s in scope %d: %s %s", what, x.id, mr.Code, val)
	if o.Crash != "" {
		return fail("crash", "%s: %s", what, o.Crash)
	}
	if d := diffEvents(h.mh.Ev[m0:], h.ev[r0:]); d != "" {
		return fail("event", "%s: %s", what, d)
	}
	if o.Code != mr.Code.String() || o.Text != val {
		return fail("result", "%s: %s %s expected, got %s %s", what, mr.Code, val, o.Code, o.Text)
	}
	for _, y := range h.scopes {
		if a, b := y.m.State(), y.state(); a != b {
			return fail("state", "%s: scope %d holds\n      %s expected, got\n      %s", what, y.id, a, b)
		}
	}
	for _, k := range h.kept {
		if now := DeepReal(k.v); now != k.text {
			return fail("changed value", "%s: %s was %s, is now %s", what, k.what, k.text, now)
		}
	}
	h.r.state(x.id, mr.Code, val, x.m.State(), strings.Join(h.ev[r0:], "|"))
	return nil
}

func runPicol(r *Run) *Violation {
	machine(nil, "/sim")
	w := NewWorld(r, TickProfile{OK: 10, Error: 2, Return: 2, Break: 2, Continue: 2})
	h := &phost{r: r, w: w, n: map[string]int{}, mh: &mhost{w: w, n: map[string]int{}}}
	h.g = &pgen{r: r}
	h.add(nil)
	step := func(k int) *Violation {
		x := pick2(r, h.scopes)
		switch {
		case k < 2 && len(h.scopes) < 4:
			var p *psys
			if r.C.N(rt.SchedS, 3) > 0 {
				p = x
			}
			h.add(p)
			return nil
		case k < 5 && len(h.runs) > 0:
			// the same script once more, perhaps in another scope
			s := pick2(r, h.runs)
			r.count("picol: script run again")
			return h.do("again "+s.text, x, func() Res { return x.m.Run(s.s) },
				func() core.Result { return x.real.Evaluator.EvaluateScript(s.real) })
		}
		h.g.budget = 14 + r.N(14)
		s := Scr(h.g.body(x.pl, 1+r.N(5))...)
		if len(s.Sents) == 0 {
			return nil
		}
		st := Style{Newlines: r.Is(2)}
		route := r.C.N(rt.SchedS, 6)
		if route > 1 && r.Is(3) {
			st = layout(r, 0)
		}
		text := Render(s, st)
		ps := parse(text, r.Is(2), "")
		r.logf("script:\n%s", indent(text))
		if !ps.Success {
			return fail("rejected", "script not accepted: %s\n%s", ps.Message, indent(text))
		}
		q := pscript{s, *ps.Script, "script"}
		switch route {
		case 0:
			for i, t := range s.Sents {
				if v := h.do("sentence", x, func() Res { return x.m.Run(Scr(t)) },
					func() core.Result { return x.real.Evaluator.EvaluateSentence(q.real.Sentences[i]) }); v != nil {
					return v
				}
			}
			return nil
		case 1:
			for i, u := range s.Sents[0].Words {
				if u.Expand {
					continue
				}
				if v := h.do("word", x, func() Res { return x.m.Word(u) },
					func() core.Result {
						return x.real.Evaluator.EvaluateWord(q.real.Sentences[0].Words[i].Word)
					}); v != nil {
					return v
				}
			}
			return nil
		}
		h.runs = append(h.runs, q)
		return h.do("script", x, func() Res { return x.m.Run(s) },
			func() core.Result { return x.real.Evaluator.EvaluateScript(q.real) })
	}
	for n := 3 + r.C.N(rt.SchedS, 8); n > 0; n-- {
		if v := step(r.C.N(rt.SchedS, 16)); v != nil {
			return v
		}
	}
	r.Nontrivial = w.total > 0
	// faults stop
	w.prof = TickProfile{OK: 1}
	h.g.calm = true
	for i := 0; i < 2; i++ {
		r.count("health scripts after the faults")
		if v := step(9); v != nil {
			return v
		}
	}
	return nil
}
func pick2[T any](r *Run, v []T) T { return v[r.C.N(rt.SchedS, len(v))] }

// pgen writes Picol programs.
type pgen struct {
	r             *Run
	labels, fresh int
	budget        int
	calm          bool
}
type pproc struct {
	name     string
	min, max int
}

// pplace is what is known at a place of a program.
type pplace struct {
	vars  []string // assignable, mostly numbers
	odd   []string // of other kinds
	read  []string // counters
	procs []pproc
	depth int
	loop  bool
	fn    bool
}

func (s *pplace) sub() *pplace {
	c := *s
	c.vars = append([]string{}, s.vars...)
	c.odd = append([]string{}, s.odd...)
	c.read = append([]string{}, s.read...)
	c.procs = append([]pproc{}, s.procs...)
	c.depth++
	return &c
}
func (g *pgen) N(n int) int { return g.r.N(n) }

// rare is true once in n places.
func (g *pgen) rare(n int) bool { return !g.calm && g.r.Is(n) }
func (g *pgen) label() *Word {
	g.labels++
	return lit("L%d", g.labels)
}
func pk[T any](g *pgen, v []T) T { return v[g.N(len(v))] }

func (g *pgen) body(s *pplace, n int) []*Sentence {
	out := []*Sentence{}
	for ; n > 0 && g.budget > 0; n-- {
		out = append(out, g.stmt(s)...)
	}
	return out
}
func (g *pgen) block(s *pplace) *Word {
	n := 1 + g.N(3)
	if s.depth > 3 {
		n = 1
	}
	if g.rare(40) {
		// no script at all
		return pk(g, []*Word{Lit("body"), Tup(Lit("set"), Lit("a"), Lit("1")), ExprC("set", Lit("a")), Str(Lit("set a"))})
	}
	b := &Script{Sents: g.body(s.sub(), n)}
	w := Blk(b)
	w.Multi = g.N(2) == 0
	if g.N(4) == 0 {
		b.Sents = append(b.Sents, g.leave(s)...)
	}
	if len(b.Sents) == 0 {
		w.Multi = false
	}
	return w
}

// leave is a sentence that may end the body it is in.
func (g *pgen) leave(s *pplace) []*Sentence {
	switch k := g.N(6); {
	case k < 2 && s.fn:
		return one(Cmd("return", g.num(s, 1)))
	case k == 2 && s.fn:
		return one(Cmd("return"))
	case k < 4 && s.loop:
		return one(Cmd(pk(g, []string{"break", "continue"})))
	case g.rare(6):
		return one(pk(g, []*Sentence{Cmd("break"), Cmd("continue"), Cmd("return", Lit("r")), Cmd("error", g.num(s, 2)), Cmd("error", Tup(Lit("e"), Lit("1")))}))
	}
	return one(Cmd("tick", g.label()))
}
func (g *pgen) num(s *pplace, d int) *Word {
	g.budget--
	if d > 3 || g.budget < 0 {
		return lit("%d", g.N(9))
	}
	switch g.N(14) {
	case 0, 1, 2:
		return lit("%d", g.N(12)-2)
	case 3, 4, 5:
		if len(s.read) > 0 && g.N(2) == 0 {
			return Var(pk(g, s.read))
		}
		if len(s.vars) > 0 {
			return Var(pk(g, s.vars))
		}
		return Lit("3")
	case 6, 7:
		op := pk(g, []string{"+", "-", "*", "/"})
		ws := []*Word{g.num(s, d+1)}
		for n := 1 + g.N(3); n > 1 || op == "/" && len(ws) < 2; n-- {
			ws = append(ws, g.num(s, d+1))
		}
		return ExprC(op, ws...)
	case 8:
		return ExprC("tick", g.label(), g.num(s, d+1))
	case 9:
		if len(s.procs) > 0 {
			return Expr(Scr(g.call(s, d)))
		}
		return ExprC("set", Lit(pk(g, s.vars2())))
	case 10:
		return ExprC("incr", Lit(pk(g, s.vars2())))
	case 11:
		return ExprC("set", Lit(pk(g, s.vars2())), g.num(s, d+1))
	case 12:
		return g.odd(s)
	default:
		return pk(g, []*Word{Lit("2.5"), Lit("0"), Lit("-1"), Lit("1e3"), Lit("7")})
	}
}
func (s *pplace) vars2() []string {
	if len(s.vars) == 0 {
		return []string{"z"}
	}
	return s.vars
}

// odd is a value of another kind, or a word that fails.
func (g *pgen) odd(s *pplace) *Word {
	if g.calm {
		return Lit("4")
	}
	switch g.N(16) {
	case 0:
		return Tup(Lit("1"), Lit("q"))
	case 1:
		return BlkC(Cmd("set", Lit("a")))
	case 2:
		return Var("unknown")
	case 3:
		return ExprC("nothing", Lit("1"))
	case 4:
		return Str(Lit("x"), Var(pk(g, s.vars2())), Lit(" y"))
	case 5, 6:
		if len(s.odd) > 0 {
			return Var(pk(g, s.odd))
		}
	case 7:
		return Expr(Scr(g.leave(s)...))
	case 8:
		return Expr(Scr())
	case 9:
		return ExprC("==", g.word(s), g.word(s))
	case 10:
		return Lit("word")
	case 11:
		if g.N(4) == 0 {
			return &Word{Kind: WBad, Text: pk(g, badWords)}
		}
	case 12:
		return ExprC("if", g.test(s, 2), g.block(s.sub()))
	}
	return Lit("5")
}

// words no program can be made of
var badWords = []string{"{a}b", "(a)b", "[a]b(c)", `"a"b`, "[a]{b}", "a(b)c", "$(a)b"}

// word is a plain word.
func (g *pgen) word(s *pplace) *Word {
	switch g.N(6) {
	case 0:
		return Lit(pk(g, []string{"1", "2", "foo", "true", "false", "0", "word"}))
	case 1:
		return g.num(s, 3)
	case 2:
		if len(s.odd) > 0 && !g.calm {
			return Var(pk(g, s.odd))
		}
	case 3:
		if !g.calm {
			return pk(g, []*Word{Tup(), Tup(Lit("1")), BlkC(Cmd("set", Lit("a"))), Expr(Scr()), Tup(Lit("1"))})
		}
	}
	return Var(pk(g, s.vars2()))
}

// test is a condition.
func (g *pgen) test(s *pplace, d int) *Word {
	g.budget--
	cmp := func() *Sentence {
		return Cmd(pk(g, []string{"<", "<=", ">", ">=", "==", "!="}), g.num(s, d+1), g.num(s, d+1))
	}
	if d > 3 || g.budget < 0 {
		return Lit("true")
	}
	switch g.N(12) {
	case 0:
		return Lit(pk(g, []string{"true", "false", "yes", "no", "1", "0", "5", "-1"}))
	case 1:
		return ExprC("tick", g.label(), Lit(pk(g, []string{"true", "false", "1"})))
	case 2:
		return BlkC(Cmd("tick", g.label(), Lit(pk(g, []string{"true", "false"}))))
	case 3:
		return ExprC("!", g.test(s, d+1))
	case 4, 5:
		ws := []*Word{}
		for n := 1 + g.N(3); n > 0; n-- {
			ws = append(ws, g.test(s, d+1))
		}
		w := Cmd(pk(g, []string{"&&", "||"}), ws...)
		if g.N(2) == 0 {
			return BlkC(w)
		}
		return Expr(Scr(w))
	case 6:
		if g.rare(3) {
			return pk(g, []*Word{Lit("maybe"), Lit("1.5"), Tup(Lit("1")), BlkC(Cmd("set", Lit("a"), Lit("1"))), BlkC(Cmd("break")), BlkC(Cmd("return", Lit("true"))), Expr(Scr()), Blk(Scr()), Lit("True")})
		}
	case 7:
		return g.num(s, d+1)
	case 8:
		return Expr(Scr(cmp()))
	}
	return BlkC(cmp())
}
func (g *pgen) call(s *pplace, d int) *Sentence {
	p := pk(g, s.procs)
	n := p.min + g.N(p.max-p.min+1)
	if g.rare(12) {
		n = g.N(p.max + 2)
	}
	t := Cmd(p.name)
	for ; n > 0; n-- {
		if g.N(6) == 0 {
			t.Words = append(t.Words, g.odd(s))
		} else {
			t.Words = append(t.Words, g.num(s, d+1))
		}
	}
	return t
}
func (g *pgen) name(p string) string { g.fresh++; return fmt.Sprintf("%s%d", p, g.fresh) }

func (g *pgen) proc(s *pplace) []*Sentence {
	n := g.name("p")
	old := g.N(5) == 0 && len(s.procs) > 0
	if old {
		n = pk(g, s.procs).name
	}
	p := pproc{name: n}
	b := s.sub()
	b.vars, b.odd, b.read, b.loop, b.fn = nil, nil, nil, false, true
	if old {
		b.procs = nil
	}
	ws := []*Word{}
	for i := g.N(4); i > 0; i-- {
		v := g.name("x")
		switch g.N(4) {
		case 0:
			ws = append(ws, BlkC(Sen(Lit(v), pk(g, []*Word{Lit("7"), Lit("d"), Tup(Lit("1"), Lit("2")), BlkC(Cmd("set", Lit("a")))}))))
			p.max++
			// an optional argument before a required one must be given
			b.odd = append(b.odd, v)
		case 1:
			ws = append(ws, BlkC(Sen(Lit(v))))
			p.max++
			p.min = p.max
			b.vars = append(b.vars, v)
		default:
			ws = append(ws, Lit(v))
			p.max++
			p.min = p.max
			b.vars = append(b.vars, v)
		}
	}
	if g.N(4) == 0 {
		ws = append(ws, Lit("args"))
		p.max += 3
		b.odd = append(b.odd, "args")
	}
	if g.rare(20) {
		ws = append(ws, pk(g, []*Word{Blk(Scr()), BlkC(Sen(Lit("k"), Lit("1"), Lit("2"))), Tup(Lit("k")), Var("a"), ExprC("set", Lit("a")), Lit("args"), Str(Lit("w w")), BlkC(Sen(Tup(Lit("k")), Lit("1"))), &Word{Kind: WBad, Text: pk(g, badWords)}, BlkC(Sen(Lit("k"), Var("a")))}))
	}
	if len(b.vars) == 0 {
		b.vars = []string{"z"}
	}
	var spec *Word
	switch {
	case g.rare(30):
		spec = pk(g, []*Word{Lit("list"), Str(Lit("a b")), Expr(Scr())})
	case g.N(3) == 0:
		spec = Tup(ws...)
	default:
		spec = Blk(Scr())
		if len(ws) > 0 {
			spec = BlkC(Sen(ws...))
		}
	}
	body := g.block(b)
	if body.Kind == WBlk && g.N(3) == 0 {
		// what the call is given
		shown := []*Word{g.label()}
		for _, v := range append(append([]string{}, b.vars...), b.odd...) {
			if v != "z" {
				shown = append(shown, Var(v))
			}
		}
		body.Sub.Sents = append([]*Sentence{Cmd("emit", shown...)}, body.Sub.Sents...)
	}
	if !old {
		s.procs = append(s.procs, p)
	} else if g.N(2) == 0 {
		for i := range s.procs {
			if s.procs[i].name == n {
				s.procs[i] = p
			}
		}
	}
	return one(Cmd("proc", Lit(n), spec, body))
}
func (g *pgen) stmt(s *pplace) []*Sentence {
	g.budget -= 2
	if g.budget < 0 || s.depth > 4 {
		return one(Cmd("emit", g.label(), g.num(s, 3)))
	}
	switch g.N(24) {
	case 0, 1, 2, 3:
		ws := []*Word{g.label(), g.num(s, 1)}
		if g.N(3) == 0 {
			ws = append(ws, g.word(s))
		}
		return one(Cmd("emit", ws...))
	case 4, 5, 6:
		v := pk(g, append([]string{"a", "b", "z"}, s.vars2()...))
		t := Cmd("set", Lit(v), g.num(s, 1))
		s.vars = append(s.vars, v)
		return one(t)
	case 7:
		if g.N(2) == 0 {
			return one(Cmd("incr", Lit(pk(g, s.vars2())), g.num(s, 2)))
		}
		return one(Cmd("incr", Lit(pk(g, s.vars2()))))
	case 8, 9:
		return one(Cmd("tick", g.label()))
	case 10, 11, 12:
		t := Cmd("if", g.test(s, 1), g.block(s))
		if g.N(2) == 0 {
			t.Words = append(t.Words, Lit("else"), g.block(s))
		}
		return one(t)
	case 13, 14:
		i := g.name("i")
		b := s.sub()
		b.loop = true
		b.read = append(b.read, i)
		bd := g.block(b)
		if bd.Kind == WBlk {
			bd.Sub.Sents = append([]*Sentence{Cmd("incr", Lit(i))}, bd.Sub.Sents...)
		}
		test := BlkC(Cmd("<", Var(i), lit("%d", 1+g.N(3))))
		if g.N(4) == 0 {
			test = BlkC(Cmd("&&", BlkC(Cmd("<", Var(i), Lit("3"))), g.test(s, 2)))
		}
		return []*Sentence{Cmd("set", Lit(i), Lit("0")), Cmd("while", test, bd)}
	case 15, 16:
		i := g.name("i")
		b := s.sub()
		b.loop = true
		b.read = append(b.read, i)
		start, next := []*Sentence{Cmd("set", Lit(i), Lit("0"))}, []*Sentence{Cmd("incr", Lit(i))}
		if g.N(4) == 0 {
			start = append(start, g.stmt(s.sub())...)
		}
		if g.N(4) == 0 {
			next = append(next, g.stmt(b.sub())...)
		}
		sw, nw := Blk(Scr(start...)), Blk(Scr(next...))
		if g.rare(30) {
			sw = Lit("0")
		}
		if g.rare(30) {
			nw = Tup(Lit("incr"), Lit(i))
		}
		return one(Cmd("for", sw, BlkC(Cmd("<", Var(i), lit("%d", 1+g.N(3)))), nw, g.block(b)))
	case 17, 18:
		return g.proc(s)
	case 19, 20:
		if len(s.procs) > 0 {
			if g.N(2) == 0 {
				return one(Cmd("emit", g.label(), Expr(Scr(g.call(s, 1)))))
			}
			return one(g.call(s, 1))
		}
		return g.proc(s)
	case 21:
		return g.recursion(s)
	case 22:
		if g.rare(2) {
			return g.leave(s)
		}
		return one(Cmd("emit", g.label(), g.test(s, 2)))
	default:
		if g.rare(3) {
			return g.misuse(s)
		}
		return one(Cmd("emit", g.label(), ExprC("==", g.word(s), g.word(s)), ExprC("!=", g.word(s), g.word(s))))
	}
}

// recursion is a procedure calling itself a number of times, whose calls have
// variables and perhaps commands of their own.
func (g *pgen) recursion(s *pplace) []*Sentence {
	n := g.name("r")
	b := s.sub()
	b.vars, b.odd, b.read, b.procs, b.loop, b.fn = []string{"v"}, nil, []string{"n"}, nil, false, true
	self := Sen(Lit(n), ExprC("-", Var("n"), Lit("1")))
	body := []*Sentence{Cmd("set", Lit("v"), g.num(b, 2)),
		Cmd("if", BlkC(Cmd("<=", Var("n"), Lit("0"))), BlkC(g.leave(b)...), Lit("else"), BlkC(Cmd("set", Lit("w"), Expr(Scr(self)))))}
	if g.N(2) == 0 {
		// a command of this call, seen by the calls it makes
		k := g.name("q")
		body = append([]*Sentence{Cmd("if", BlkC(Cmd("==", Var("n"), lit("%d", 1+g.N(2)))),
			BlkC(Cmd("proc", Lit("local"), Blk(Scr()), BlkC(Cmd("return", Lit(k))))))}, body...)
		body = append(body, Cmd("emit", g.label(), Var("n"), ExprC("local")))
	}
	body = append(body, Cmd("emit", g.label(), Var("n"), Var("v")))
	body = append(body, g.leave(b)...)
	return []*Sentence{Cmd("proc", Lit(n), BlkC(Sen(Lit("n"))), Blk(Scr(body...))),
		Cmd("emit", g.label(), Expr(Scr(Sen(Lit(n), lit("%d", 1+g.N(3))))))}
}

// misuse calls a command the wrong way.
func (g *pgen) misuse(s *pplace) []*Sentence {
	c := pk(g, []string{"+", "-", "*", "/", "==", "!=", "<", ">=", "!", "&&", "||", "if", "for", "while", "set", "incr", "proc", "return", "break", "continue", "error"})
	t := Cmd(c)
	n := g.N(6)
	for ; n > 0; n-- {
		switch g.N(4) {
		case 0:
			t.Words = append(t.Words, g.word(s))
		case 1:
			t.Words = append(t.Words, BlkC(Cmd("emit", g.label())))
		case 2:
			t.Words = append(t.Words, Lit(pk(g, []string{"false", "a", "0", "break"})))
		default:
			t.Words = append(t.Words, g.num(s, 2))
		}
	}
	return one(t)
}

func init() {
	register(&Prop{ID: "P22", Level: "exploration", Quick: 50000, Deep: 2000000, Limit: 600_000,
		Real: "the Picol dialect, compiler, executor, tokenizer and parser",
		Stub: "the host's commands emit and tick; the reference model is independent code",
		Rule: "a run is non-trivial when at least one fault point was reached; states are distinct combinations of scope, outcome, events and variables after an evaluation",
		Run:  runPicol})
}
