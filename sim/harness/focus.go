package main

import (
	. "helena/verifsim/model"
)

// Statements of particular properties.

// coroutines: life cycles driven from everywhere (P03).
func focusCoroutines(g *G, s *gs) []*Sentence {
	n := g.fresh("co")
	sub := s.sub()
	sub.own = true
	op := func(target string, guard bool) *Sentence {
		var t *Sentence
		switch g.N(7) {
		case 0, 1:
			t = Sen(Var(target), Lit("wait"))
		case 2, 3:
			t = Sen(Var(target), Lit("yield"), g.Num(s, 2))
		case 4:
			t = Sen(Var(target), Lit("yield"))
		case 5:
			t = Sen(Var(target), Lit("active"))
		default:
			t = Sen(Var(target), Lit("done"))
		}
		if guard && g.N(4) > 0 {
			return Cmd("emit", Lit(g.label()), ExprC("catch", BlkC(t), Lit("error"), Lit("h"), BlkC(Cmd("idem", Var("h")))))
		}
		return Cmd("emit", Lit(g.label()), Expr(Scr(t)))
	}
	b := &Script{}
	for i := 1 + g.N(4); i > 0; i-- {
		switch g.N(7) {
		case 0:
			b.Sents = append(b.Sents, op(n, true)) // on itself
		case 1:
			if len(s.co) > 0 {
				b.Sents = append(b.Sents, op(pick(g, s.co), true))
			}
		case 2:
			b.Sents = append(b.Sents, Cmd("emit", Lit(g.label()), ExprC("yield", g.Num(sub, 2))))
		case 3:
			b.Sents = append(b.Sents, Cmd("emit", Lit(g.label()), ExprC("tick", Lit(g.label()))))
		default:
			b.Sents = append(b.Sents, g.Stmt(sub)...)
		}
	}
	switch g.N(6) {
	case 0:
		b.Sents = append(b.Sents, Cmd("error", Lit("bad")))
	case 1:
		b.Sents = append(b.Sents, Cmd("return", g.Num(sub, 2)))
	case 2:
		b.Sents = append(b.Sents, Cmd(pick(g, []string{"break", "continue", "pass"})))
	case 3:
		b.Sents = append(b.Sents, Cmd("tick", Lit(g.label())))
	}
	w := Blk(b)
	w.Multi = true
	out := []*Sentence{Cmd("set", Lit(n), ExprC("coroutine", w))}
	s.co = append(s.co, n)
	for i := g.N(6); i > 0; i-- {
		out = append(out, op(pick(g, s.co), true))
		if g.Is(3) {
			out = append(out, Cmd("emit", Lit(g.label()), Expr(Scr(Sen(Var(n), Lit("active")))), Expr(Scr(Sen(Var(n), Lit("done"))))))
		}
	}
	if g.Is(3) {
		// drive it to its end
		c := g.fresh("w")
		out = append(out, Cmd("set", Lit(c), Lit("0")),
			Cmd("while", BlkC(Cmd("&&", ExprC("!", Expr(Scr(Sen(Var(n), Lit("done"))))), BlkC(Sen(Var(c), Lit("<"), Lit("6"))))), BlkC(
				Cmd("set", Lit(c), Expr(Scr(Sen(Var(c), Lit("+"), Lit("1"))))), op(n, true))))
	}
	return out
}

// assignments: several names at once, failing at any of them (P13).
func focusAssign(g *G, s *gs) []*Sentence {
	probe := func(ns ...string) *Sentence {
		ws := []*Word{Lit(g.label())}
		for _, n := range ns {
			ws = append(ws, ExprC("get", Lit(n), Lit("none")))
		}
		return Cmd("emit", ws...)
	}
	names := []string{"a", "b", "p1", "p2", "p3", "K1", "K2", "x", "s"}
	name := func() *Word {
		switch g.N(12) {
		case 0:
			return Lit("K1")
		case 1:
			return pick(g, []*Word{ExprC("list", Tup()), Expr(Scr()), Blk(Scr(Cmd("a", Lit("b"))))})
		}
		return Lit(pick(g, names))
	}
	var shape func(d int) (*Word, *Word)
	shape = func(d int) (*Word, *Word) {
		n := 1 + g.N(4)
		var ns, vs []*Word
		for i := 0; i < n; i++ {
			if d < 2 && g.N(4) == 3 {
				a, b := shape(d + 1)
				ns, vs = append(ns, a), append(vs, b)
				continue
			}
			ns = append(ns, name())
			if g.N(9) == 8 {
				vs = append(vs, g.Any(s, 2))
			} else {
				vs = append(vs, lit("%d", g.N(90)+10))
			}
		}
		switch g.N(10) {
		case 0:
			vs = vs[:len(vs)-1]
		case 1:
			return Tup(ns...), g.Num(s, 2)
		case 2:
			vs = append(vs, Lit("99"))
		}
		if g.N(5) == 4 {
			return Tup(ns...), ExprC("list", Tup(vs...))
		}
		return Tup(ns...), Tup(vs...)
	}
	var t []*Sentence
	ns, vs := shape(0)
	switch g.N(9) {
	case 0, 1, 2:
		t = append(t, Cmd("set", ns, vs))
	case 3, 4:
		t = append(t, Cmd("let", ns, vs))
	case 5:
		t = append(t, Cmd("unset", ns))
	case 6:
		t = append(t, Cmd("loop", ns, ExprC("list", Tup(vs, vs)), Blk(Scr(Cmd("emit", Lit(g.label()), ExprC("get", Lit("p1"), Lit("none")), ExprC("get", Lit("x"), Lit("none")))))))
	case 7:
		t = append(t, Cmd("list", ExprC("list", Tup(vs)), Lit("foreach"), ns, Blk(Scr(probe("p1", "p2", "x", "a")))))
	case 8:
		// argument specification
		spec := []*Word{Lit("p1"), Lit("K1"), Lit("?p2"), Lit("*p3")}
		k := g.N(5)
		var as []*Word
		switch k {
		case 0:
			spec = []*Word{Lit("p1"), Tup(Lit("?p2"), Lit("7")), Lit("x")}
		case 1:
			spec = []*Word{Lit("p1"), Tup(Lit("int"), Lit("p2")), Tup(Tup(Lit("tick"), Lit(g.label())), Lit("p3"))}
		case 2:
			spec = []*Word{Lit("-o"), Lit("p1"), Lit("p2"), Lit("*K2")}
			as = append(as, Lit("-o"))
		case 3:
			spec = []*Word{Lit("a"), Tup(Lit("?b"), BlkC(Cmd("tick", Lit(g.label())), Cmd("idem", Lit("5")))), Lit("?K1")}
		}
		for i := g.N(5); i >= 0; i-- {
			as = append(as, pick(g, []*Word{lit("%d", g.N(50)), lit("%d", g.N(50)), Lit("x")}))
		}
		t = append(t, Cmd("argspec", Tup(spec...), Lit("set"), Tup(as...)))
	}
	var out []*Sentence
	if g.N(3) == 2 {
		out = append(out, Cmd("catch", BlkC(Cmd("let", Lit(pick(g, []string{"K1", "K2"})), lit("%d", g.N(9)))), Lit("error"), Lit("h"), BlkC(Cmd("emit", Var("h")))))
	}
	body := Blk(Scr(append(t, Cmd("emit", Lit(g.label())))...))
	out = append(out, probe("a", "b", "p1", "p2", "p3", "K1", "K2", "x"),
		Cmd("catch", body, Lit("error"), Lit("h"), BlkC(Cmd("emit", Lit(g.label()), Var("h")))),
		probe("a", "b", "p1", "p2", "p3", "K1", "K2", "x"))
	if g.N(3) == 2 {
		// in a procedure of its own, with locals
		n := g.fresh("f")
		pre := Cmd("set", Tup(Lit("a"), Lit("b"), Lit("p1")), Tup(Lit("1"), Lit("2"), Lit("3")))
		return []*Sentence{Cmd(pick(g, []string{"proc", "proc", "closure", "macro"}), Lit(n), Tup(Lit("x"), Lit("?p2")), Blk(Scr(append([]*Sentence{pre}, out...)...))),
			Cmd("catch", BlkC(Cmd(n, g.Num(s, 2)), Cmd(n, Lit("1"), Lit("2"))), Lit("error"), Lit("h"), BlkC(Cmd("emit", Var("h"))))}
	}
	return out
}

// values: kept while derived values are made from them (P08).
func focusValues(g *G, s *gs) []*Sentence {
	n := g.fresh("o")
	var src *Word
	var ops []func(v *Word) *Word
	num := func() *Word { return g.Num(s, 3) }
	smallN := func() *Word { return lit("%d", g.N(4)) }
	switch g.N(5) {
	case 0, 1:
		src = pick(g, []*Word{ExprC("list", Tup(num(), num(), num())), ExprC("list", BlkC(Sen(Lit("1"), Lit("2"), Lit("3")))),
			ExprC("list", ExprC("list", Tup(num(), num(), num(), num())), Lit("range"), Lit("0"), smallN()), ExprC("tuple", ExprC("list", Tup(num(), num())))})
		ops = []func(v *Word) *Word{
			func(v *Word) *Word { return ExprC("list", v, Lit("append"), ExprC("list", Tup(num()))) },
			func(v *Word) *Word { return ExprC("list", v, Lit("append"), Tup(num(), num())) },
			func(v *Word) *Word { return ExprC("list", v, Lit("range"), smallN(), smallN()) },
			func(v *Word) *Word { return ExprC("list", v, Lit("insert"), smallN(), Tup(num())) },
			func(v *Word) *Word { return ExprC("list", v, Lit("replace"), smallN(), smallN(), Tup(num(), num())) },
			func(v *Word) *Word { return ExprC("list", v, Lit("remove"), smallN(), smallN()) },
			func(v *Word) *Word { return ExprC("list", v) },
			func(v *Word) *Word { return ExprC("tuple", v) },
		}
		if g.Is(3) {
			src = ExprC("list", Tup(Lit("3"), Lit("1"), Lit("2")))
			cmp := func() *Word {
				return Expr(Scr(Sen(ExprC("closure", Tup(Lit("x"), Lit("y")), BlkC(Sen(Var("x"), Lit("-"), Var("y")))))))
			}
			ops = append(ops[:1:1], func(v *Word) *Word { return ExprC("list", v, Lit("sort"), cmp()) })
		}
	case 2:
		src = ExprC("dict", Tup(Lit("p"), num(), Lit("q"), num()))
		ops = []func(v *Word) *Word{
			func(v *Word) *Word { return ExprC("dict", v, Lit("add"), Lit(pick(g, []string{"p", "n"})), num()) },
			func(v *Word) *Word { return ExprC("dict", v, Lit("remove"), Lit(pick(g, []string{"p", "n"}))) },
			func(v *Word) *Word {
				return ExprC("dict", v, Lit("merge"), ExprC("dict", Tup(Lit("p"), num(), Lit("m"), num())))
			},
			func(v *Word) *Word { return ExprC("dict", v, Lit("merge")) },
			func(v *Word) *Word {
				return ExprC("dict", ExprC("dict", Tup()), Lit("merge"), v, ExprC("dict", Tup(Lit("p"), num())))
			},
			func(v *Word) *Word { return ExprC("dict", v) },
			func(v *Word) *Word { return ExprC("dict", ExprC("dict", v), Lit("add"), Lit("z"), num()) },
		}
	case 3:
		src = pick(g, []*Word{ExprC("script", BlkC(Cmd("emit", Lit("1")), Cmd("emit", Lit("2")), Cmd("idem", Lit("5")))), ExprC("script", Tup(Lit("idem"), num())),
			ExprC("script", BlkC(Cmd("emit", Lit("1"))), Lit("append"), BlkC(Cmd("emit", Lit("3"))), Tup(Lit("idem"), num()))})
		ops = []func(v *Word) *Word{
			func(v *Word) *Word { return ExprC("script", v, Lit("append"), BlkC(Cmd("emit", Lit(g.label())))) },
			func(v *Word) *Word { return ExprC("script", v, Lit("append"), Tup(Lit("emit"), Lit(g.label()), num())) },
			func(v *Word) *Word { return ExprC("eval", v) },
			func(v *Word) *Word { return ExprC("script", v, Lit("split")) },
		}
	default:
		src = Tup(num(), num())
		ops = []func(v *Word) *Word{
			func(v *Word) *Word { return ExprC("list", ExprC("list", v), Lit("append"), Tup(num())) },
			func(v *Word) *Word { return Tup(num(), v) },
			func(v *Word) *Word { return ExprC("tuple", v, Lit("at"), Lit("0")) },
			func(v *Word) *Word { return ExprC("idem", v) },
			func(v *Word) *Word {
				return ExprC("list", ExprC("list", v), Lit("replace"), Lit("0"), Lit("0"), Tup(Lit("z")))
			},
		}
	}
	out := []*Sentence{Cmd("set", Lit(n), src), Cmd("keep", Var(n))}
	s.any = append(s.any, n)
	cur := n
	for i := 1 + g.N(4); i > 0; i-- {
		m := g.fresh("o")
		w := pick(g, ops)(Var(cur))
		if g.N(4) == 3 {
			w = ExprC("tick", Lit(g.label()), w)
		}
		out = append(out, Cmd("set", Lit(m), w), Cmd("keep", Var(m)))
		s.any = append(s.any, m)
		if ops != nil && g.Is(3) {
			w2 := pick(g, ops)(Var(cur))
			out = append(out, Cmd("keep", w2))
		}
	}
	out = append(out, Cmd("emit", Lit(g.label()), Var(n)))
	if g.Is(3) {
		f := g.fresh("f")
		out = append(out, Cmd(pick(g, []string{"proc", "closure", "macro"}), Lit(f), Tup(Lit("x"), Lit("*z")), Blk(Scr(
			Cmd("keep", Var("z")), Cmd("emit", ExprC("tick", Lit(g.label()), Var("z"))), Cmd("idem", Tup(Var("x"), Var("z")))))),
			Cmd("keep", Expr(Scr(Cmd(f, Var(n), num(), num())))), Cmd("keep", Expr(Scr(Cmd(f, num(), num(), num(), num())))), Cmd("emit", Lit(g.label()), Var(n)))
	}
	return out
}

// specifications and calls (P17).
func focusArgs(g *G, s *gs) []*Sentence {
	var ws []*Word
	type par struct {
		name string
		rem  bool
	}
	var pars []par
	opts := []string{}
	flags := map[string]bool{}
	i := 0
	name := func() string { i++; return string(rune('g'+i)) + "1" }
	guard := func(n *Word) *Word { // n is ?name or name
		switch g.N(9) {
		case 0:
			return Tup(Lit(pick(g, []string{"int", "list", "bool", "string", "dict"})), n)
		case 1:
			return Tup(Tup(Lit("tick"), Lit(g.label())), n)
		case 2:
			return Tup(Tup(Lit("emit"), Lit(g.label())), n)
		}
		return n
	}
	def := func(n string) *Word {
		d := pick(g, []*Word{lit("%d", g.N(9)), Lit("x"), BlkC(Cmd("emit", Lit(g.label())), Cmd("idem", Lit("4"))), BlkC(Cmd("tick", Lit(g.label()))), ExprC("list", Tup(Lit("1")))})
		switch g.N(7) {
		case 0:
			return Tup(Lit("int"), Lit("?"+n), d)
		case 1:
			return Tup(Tup(Lit("tick"), Lit(g.label())), Lit("?"+n), d)
		}
		return Tup(Lit("?"+n), d)
	}
	grouped := g.Is(4)
	var layout []string // options, and "" for each parameter
	if grouped {
		// parameters before the options, and options again after
		for k := 1 + g.N(2); k > 0; k-- {
			n := name()
			ws = append(ws, pick(g, []*Word{Lit(n), Lit(n), guard(Lit("?" + n)), def(n)}))
			pars = append(pars, par{n, false})
			layout = append(layout, "")
		}
		if g.Is(2) {
			n := name()
			ws = append(ws, Lit(pick(g, []string{"-", "?-"})+n), Lit("?"+n), Lit("v"+n))
			flags["-"+n] = true
			opts = append(opts, "-"+n)
			pars = append(pars, par{n, false}, par{"v" + n, false})
			layout = append(layout, "-"+n, "")
		}
	}
	for k := g.N(4); k > 0; k-- {
		n := name()
		o := "-" + n
		switch g.N(5) {
		case 0:
			ws = append(ws, Lit("?"+o), Lit("?"+n))
			flags[o] = true
		case 1:
			ws = append(ws, Lit(o), guard(Lit(n)))
		case 2:
			ws = append(ws, Lit(o), def(n))
		case 3:
			ws = append(ws, Tup(Lit(o), Lit("--"+n)), Lit("?"+n))
			if g.Is(2) {
				o = "--" + n
			}
		default:
			ws = append(ws, Lit(o), guard(Lit("?"+n)))
		}
		opts = append(opts, o)
		layout = append(layout, o)
		pars = append(pars, par{n, false})
	}
	rem := g.N(5)
	for k := g.N(5); k > 0; k-- {
		layout = append(layout, "")
		n := name()
		switch {
		case k == rem:
			ws = append(ws, guard(Lit("*"+n)))
			pars = append(pars, par{n, true})
			continue
		case g.N(3) == 0:
			ws = append(ws, def(n))
		case g.N(3) == 0:
			ws = append(ws, guard(Lit("?"+n)))
		default:
			ws = append(ws, guard(Lit(n)))
		}
		pars = append(pars, par{n, false})
	}
	if g.Is(6) {
		ws = g.misspec(s, ws)
	}
	emit := []*Word{Lit(g.label())}
	for _, p := range pars {
		emit = append(emit, ExprC("get", Lit(p.name), Lit("none")))
	}
	f := g.fresh("f")
	kind := pick(g, []string{"proc", "closure", "macro"})
	body := Blk(Scr(Cmd("emit", emit...), Cmd("tick", Lit(g.label())), Cmd("emit", emit...)))
	out := []*Sentence{Cmd("catch", BlkC(Cmd(kind, Lit(f), Tup(ws...), body)), Lit("error"), Lit("h"), BlkC(Cmd("emit", Var("h"))))}
	if g.Is(5) {
		// as an argument specification of its own
		ws := append([]*Word{}, ws...)
		out[0] = Cmd("catch", BlkC(Cmd("set", Lit("sp"), ExprC("argspec", Tup(ws...))), Cmd(kind, Lit(f), Var("sp"), body)), Lit("error"), Lit("h"), BlkC(Cmd("emit", Var("h"))))
	}
	call := func() *Sentence {
		var as []*Word
		if grouped && g.Is(2) {
			// in the order of the specification
			for _, o := range layout {
				switch {
				case g.Is(8):
				case o == "":
					as = append(as, lit("%d", 10+g.N(80)))
				case g.Is(10):
					as = append(as, Lit("--"))
				case g.Is(2):
					as = append(as, Lit(o))
					if !flags[o] {
						as = append(as, lit("%d", 10+g.N(80)))
					}
					if g.Is(8) {
						// given again
						as = append(as, Lit(o))
						if !flags[o] {
							as = append(as, lit("%d", 10+g.N(80)))
						}
					}
				}
			}
			return Cmd(f, as...)
		}
		for _, o := range opts {
			if g.Is(2) {
				as = append(as, Lit(o))
				if !flags[o] && g.N(8) != 7 {
					as = append(as, g.Num(s, 3))
				}
			}
			if g.Is(12) {
				// perhaps given twice
				as = append(as, Lit(o))
				if !flags[o] {
					as = append(as, g.Num(s, 3))
				}
			}
		}
		if len(as) > 1 && g.Is(4) {
			// another order
			k := 1 + g.N(len(as)-1)
			as = append(append([]*Word{}, as[k:]...), as[:k]...)
		}
		for k := g.N(len(pars) + 2); k > 0; k-- {
			switch g.N(10) {
			case 0:
				as = append(as, g.Any(s, 3))
			case 1:
				as = append(as, Lit("-zz"))
			default:
				as = append(as, lit("%d", 10+g.N(80)))
			}
		}
		return Cmd(f, as...)
	}
	for k := 1 + g.N(4); k > 0; k-- {
		c := call()
		switch g.N(4) {
		case 0:
			out = append(out, Cmd("emit", Lit(g.label()), Expr(Scr(c))))
		case 1, 2:
			out = append(out, Cmd("catch", Blk(Scr(c)), Lit("error"), Lit("h"), BlkC(Cmd("emit", Lit(g.label()), Var("h"))), Lit("finally"), BlkC(Cmd("emit", Lit(g.label())))))
		default:
			// bound by set, in the scope
			as := c.Words[1:]
			out = append(out, Cmd("catch", BlkC(Cmd("argspec", Tup(ws...), Lit("set"), Tup(as...)), Cmd("emit", emit...)), Lit("error"), Lit("h"), BlkC(Cmd("emit", Lit(g.label()), Var("h")))))
		}
	}
	return out
}

// misspec makes a specification that may be wrong.
func (g *G) misspec(s *gs, ws []*Word) []*Word {
	ws = append([]*Word{}, ws...)
	for k := 1 + g.N(2); k > 0; k-- {
		o := "-" + pick(g, []string{"h1", "i1", "j1", "w"})
		n := pick(g, []string{"h1", "i1", "j1", "w", "w"})
		w := pick(g, []func() []*Word{
			func() []*Word { return []*Word{Tup(Lit(n))} },
			func() []*Word { return []*Word{Tup(Lit("?" + n))} },
			func() []*Word { return []*Word{Tup()} },
			func() []*Word { return []*Word{Tup(Lit("int"), Lit("?"+n), Lit("1"), Lit("2"))} },
			func() []*Word { return []*Word{Tup(Lit("int"), Lit(n), Lit("1"))} },
			func() []*Word { return []*Word{Tup(Tup(Lit("a")), Lit(n), Lit("1"), Lit("2"))} },
			func() []*Word { return []*Word{Tup(Tup(Lit("a")), Tup(Lit("b")))} },
			func() []*Word { return []*Word{Tup(Lit(n), Tup(Lit("b")))} },
			func() []*Word { return []*Word{Str(Lit(""))} },
			func() []*Word { return []*Word{Tup(Str(Lit("")))} },
			func() []*Word { return []*Word{Lit("?")} },
			func() []*Word { return []*Word{Tup(Lit("?"))} },
			func() []*Word { return []*Word{Tup(Lit("int"), Lit("?"))} },
			func() []*Word { return []*Word{Tup(Lit("int"), Lit("?"), Lit("2"))} },
			func() []*Word { return []*Word{Tup(Lit("int"), Tup(Lit("x")), Lit("2"))} },
			func() []*Word { return []*Word{g.Any(s, 2)} },
			func() []*Word { return []*Word{Tup(g.Any(s, 2), Lit(n))} },
			func() []*Word { return []*Word{Lit(n)} },
			func() []*Word { return []*Word{Lit("*")} },
			func() []*Word { return []*Word{Lit("*" + n)} },
			func() []*Word { return []*Word{Lit("*"), Lit(o), Lit(n)} },
			func() []*Word { return []*Word{Lit(o)} },
			func() []*Word { return []*Word{Lit(o), Lit(n)} },
			func() []*Word { return []*Word{Lit(o), Lit("*" + n)} },
			func() []*Word { return []*Word{Lit("?" + o), Lit(n)} },
			func() []*Word { return []*Word{Lit("?" + o), Lit("*" + n)} },
			func() []*Word { return []*Word{Lit("?" + o), Lit("?" + n)} },
			func() []*Word { return []*Word{Lit("--"), Lit(n)} },
			func() []*Word { return []*Word{Lit("?--"), Lit("?" + n)} },
			func() []*Word { return []*Word{Tup(Lit(o), Lit("--")), Lit(n)} },
			func() []*Word { return []*Word{Tup(Lit(o), Lit(o)), Lit(n)} },
			func() []*Word { return []*Word{Tup(Lit(o), Lit("?"+o)), Lit("?" + n)} },
			func() []*Word { return []*Word{Tup(Lit("?"+o), Lit("?-other")), Lit("?" + n)} },
			func() []*Word { return []*Word{Tup(Lit(o), Lit(n)), Lit(n)} },
			func() []*Word { return []*Word{Tup(Lit(n), Lit(o)), Lit(n)} },
			func() []*Word { return []*Word{Lit("-"), Lit("?-")} }})()
		at := g.N(len(ws) + 1)
		ws = append(ws[:at:at], append(w, ws[at:]...)...)
	}
	if len(ws) > 1 && g.Is(3) {
		at := g.N(len(ws))
		ws = append(ws[:at:at], ws[at+1:]...)
	}
	return ws
}

// definitions whose body fails, and what the name means afterwards (P18).
func focusDefs(g *G, s *gs) []*Sentence {
	if g.Is(3) {
		return focusRedefs(g, s)
	}
	n := pick(g, []string{"Q1", "Q2", "Q3"})
	use := func() *Sentence {
		t := pick(g, []*Sentence{
			Cmd(n, Lit("eval"), BlkC(Cmd("emit", ExprC("get", Lit("q"), Lit("none"))))),
			Cmd(n, Lit("call"), Lit("m"), Lit("3")),
			Cmd(n, Lit("m"), Lit("4")),
			Cmd(n, Lit("5"), Lit("m")),
			Cmd(n, Lit("6")),
			Cmd(n)})
		return Cmd("catch", BlkC(Cmd("emit", Lit(g.label()), Expr(Scr(t)))), Lit("error"), Lit("h"), BlkC(Cmd("emit", Lit(g.label()), Var("h"))))
	}
	sub := s2(s)
	ver := g.label()
	m := Cmd(pick(g, []string{"proc", "closure", "macro"}), Lit("m"), Tup(Lit("x")), BlkC(
		Cmd("emit", Lit(ver), Var("x")), Cmd("emit", Lit(ver), ExprC("tick", Lit(g.label()), Var("x"))), Cmd("idem", Tup(Lit(ver), Var("x")))))
	mid := func() *Sentence {
		switch g.N(9) {
		case 0:
			return Cmd(pick(g, []string{"break", "continue", "pass"}))
		case 1:
			return Cmd("return", g.Num(sub, 3))
		case 2:
			return Cmd("error", Lit("bad"))
		case 3:
			return Cmd("emit", Lit(g.label()), ExprC("yield", lit("%d", g.N(9))))
		default:
			return Cmd("tick", Lit(g.label()))
		}
	}
	b := &Script{Sents: []*Sentence{Cmd("set", Lit("q"), Lit(ver)), Cmd("emit", Lit(g.label()))}}
	for i := g.N(3); i > 0; i-- {
		b.Sents = append(b.Sents, mid())
		if g.Is(3) {
			b.Sents = append(b.Sents, use())
		}
	}
	b.Sents = append(b.Sents, m)
	for i := g.N(2); i > 0; i-- {
		b.Sents = append(b.Sents, mid())
	}
	w := Blk(b)
	w.Multi = true
	var t *Sentence
	switch g.N(7) {
	case 0:
		t = Cmd("scope", Lit(n), w)
	case 1:
		t = Cmd("namespace", Lit(n), w)
	case 2, 3:
		t = Cmd("ensemble", Lit(n), Tup(Lit("x")), w)
	case 4:
		t = m
		m.Words[1] = Lit(n)
	case 5:
		t = Cmd("module", Lit(n), BlkC(Cmd("import", Lit("host"), Tup(Lit("emit"), Lit("tick"))),
			Cmd("tick", Lit(g.label())), m, Cmd("export", Lit("m"))))
	default:
		t = Cmd("alias", Lit(n), Tup(Lit("emit"), Lit(ver)))
	}
	out := []*Sentence{use()}
	switch g.N(4) {
	case 0:
		out = append(out, g.used(s, t))
	default:
		out = append(out, Cmd("catch", BlkC(t), Lit("error"), Lit("h"), BlkC(Cmd("emit", Lit(g.label()), Var("h"))), Lit("finally"), BlkC(Cmd("emit", Lit(g.label())))))
	}
	if g.Is(2) {
		// a call in progress while the name changes its meaning
		c := g.fresh("co")
		out = append([]*Sentence{Cmd("set", Lit(c), ExprC("coroutine", BlkC(use(), Cmd("yield"), use()))), Cmd("catch", BlkC(Sen(Var(c), Lit("wait"))), Lit("error"), Lit("h"), BlkC())}, out...)
		out = append(out, Cmd("catch", BlkC(Sen(Var(c), Lit("wait")), Sen(Var(c), Lit("wait"))), Lit("error"), Lit("h"), BlkC(Cmd("emit", Var("h")))))
	}
	return append(out, use())
}

// names defined again while what they meant is still held or at work (P18).
func focusRedefs(g *G, s *gs) []*Sentence {
	n := pick(g, []string{"Q1", "Q2", "Q3"})
	guarded := func(t ...*Sentence) *Sentence {
		return Cmd("catch", BlkC(t...), Lit("error"), Lit("h"), BlkC(Cmd("emit", Lit(g.label()), Var("h"))))
	}
	body := func() *Word {
		ver := g.label()
		b := Scr(Cmd("emit", Lit(ver), ExprC("get", Lit("x"), Lit("none"))))
		for i := g.N(3); i > 0; i-- {
			switch g.N(5) {
			case 0:
				b.Sents = append(b.Sents, Cmd("emit", Lit(ver), ExprC("yield", Lit(ver))))
			case 1:
				b.Sents = append(b.Sents, Cmd("let", Lit("z"+ver), ExprC("get", Lit("x"), Lit("none"))))
			default:
				b.Sents = append(b.Sents, Cmd("emit", Lit(ver), ExprC("tick", Lit(g.label()), ExprC("get", Lit("x"), Lit("none")))))
			}
		}
		b.Sents = append(b.Sents, Cmd("idem", Tup(Lit(ver), ExprC("get", Lit("x"), Lit("none")))))
		return Blk(b)
	}
	args := func() *Word {
		return pick(g, []*Word{Tup(), Tup(Lit("x")), Tup(Lit("?x")), Tup(Lit("*x")), Tup(Tup(Lit("?x"), lit("%d", g.N(9))), Lit("y")), Tup(Lit("x"), Lit("?y"))})
	}
	callable := func(n string) *Sentence {
		w := []*Word{}
		if n != "" {
			w = append(w, Lit(n))
		}
		w = append(w, args())
		if g.Is(4) {
			w = append(w, BlkC(Cmd("idem", Lit("x"))))
			w[len(w)-2] = Tup(Lit("x"))
			return Cmd(pick(g, []string{"proc", "closure", "macro"}), append(w[:len(w)-1], body())...)
		}
		return Cmd(pick(g, []string{"proc", "closure", "macro", "proc"}), append(w, body())...)
	}
	last := 0
	def := func(n string) *Sentence {
		k := g.N(8)
		if last > 0 && g.N(2) == 0 {
			k = last
		}
		last = k
		inner := func() *Word {
			b := Scr(Cmd("set", Lit("q"), Lit(g.label())))
			for _, m := range []string{"m", "w"} {
				if !g.Is(3) {
					b.Sents = append(b.Sents, callable(m))
				}
			}
			w := Blk(b)
			w.Multi = true
			return w
		}
		switch k {
		case 0:
			return Cmd("scope", Lit(n), inner())
		case 1:
			return Cmd("namespace", Lit(n), inner())
		case 2:
			return Cmd("ensemble", Lit(n), args(), inner())
		case 3:
			return Cmd("alias", Lit(n), Tup(Lit("emit"), Lit(g.label())))
		default:
			return callable(n)
		}
	}
	arg := func() []*Word {
		var ws []*Word
		for i := g.N(4); i > 0; i-- {
			ws = append(ws, lit("%d", g.N(90)))
		}
		return ws
	}
	var held []string
	var name []string
	use := func() *Sentence {
		var t *Sentence
		if len(held) > 0 && !g.Is(3) {
			h := Var(pick(g, held))
			switch g.N(6) {
			case 0:
				t = Sen(h, Lit("call"), pick(g, []*Word{Lit("m"), Lit("w")}), lit("%d", g.N(9)))
			case 1:
				t = Sen(h, Lit("eval"), BlkC(Cmd("emit", ExprC("get", Lit("q"), Lit("none")))))
			case 2:
				t = Sen(append([]*Word{Expr(Scr(Sen(h))), lit("%d", g.N(9)), pick(g, []*Word{Lit("m"), Lit("w")})}, arg()...)...)
			default:
				t = Sen(append([]*Word{Expr(Scr(Sen(h)))}, arg()...)...)
			}
		} else {
			f := n
			if len(name) > 0 && g.Is(2) {
				f = pick(g, name)
			}
			switch g.N(6) {
			case 0:
				t = Cmd(f, Lit("call"), pick(g, []*Word{Lit("m"), Lit("w")}), lit("%d", g.N(9)))
			case 1:
				t = Cmd(f, pick(g, []*Word{Lit("m"), Lit("w")}), lit("%d", g.N(9)))
			case 2:
				t = Cmd(f, lit("%d", g.N(9)), pick(g, []*Word{Lit("m"), Lit("w")}))
			default:
				t = Cmd(f, arg()...)
			}
		}
		return guarded(Cmd("emit", Lit(g.label()), Expr(Scr(t))))
	}
	var out []*Sentence
	for i := 2 + g.N(3); i > 0; i-- {
		t := def(n)
		v := g.fresh("h")
		switch g.N(4) {
		case 0:
			out = append(out, guarded(t))
		case 1:
			out = append(out, Cmd("set", Lit(v), Lit("none")), guarded(Cmd("set", Lit(v), Expr(Scr(t)))))
			held = append(held, v)
		default:
			out = append(out, Cmd("set", Lit(v), Lit("none")), guarded(Cmd("set", Lit(v), Expr(Scr(t)))))
			held = append(held, v)
			// keeps the command itself under another name
			a := g.fresh("A")
			switch g.N(3) {
			case 0:
				out = append(out, guarded(Cmd("alias", Lit(a), Var(v))))
			case 1:
				out = append(out, guarded(Cmd("alias", Lit(a), Expr(Scr(Sen(Var(v)))))))
			default:
				out = append(out, Cmd("alias", Lit(a), Tup(Lit(n))))
			}
			name = append(name, a)
		}
		if g.Is(3) {
			// a call is in progress
			c := g.fresh("co")
			out = append(out, Cmd("set", Lit(c), ExprC("coroutine", BlkC(use(), use()))), guarded(Cmd("emit", Expr(Scr(Sen(Var(c), Lit("wait")))))))
			out = append(out, use())
			t := def(n)
			out = append(out, guarded(t), guarded(Cmd("emit", Expr(Scr(Sen(Var(c), Lit("wait"))))), Cmd("emit", Expr(Scr(Sen(Var(c), Lit("wait")))))))
		}
		for j := 1 + g.N(3); j > 0; j-- {
			out = append(out, use())
		}
	}
	return out
}

// collections without order, used so that the order cannot matter (P14).
func focusHash(g *G, s *gs) []*Sentence {
	keys := []string{"k1", "k2", "k3", "k4", "k5", "k6"}
	key := func() *Word { return Lit(pick(g, keys)) }
	dict := func() *Word {
		var ws []*Word
		for i := g.N(7); i > 0; i-- {
			v := g.Num(s, 3)
			if g.Is(5) {
				v = ExprC("dict", Tup(key(), lit("%d", g.N(9))))
			}
			ws = append(ws, key(), v)
		}
		return ExprC("dict", Tup(ws...))
	}
	seen := func(w ...*Word) *Sentence { return Cmd("emit", append([]*Word{Lit(g.label())}, w...)...) }
	guarded := func(t ...*Sentence) *Sentence {
		return Cmd("catch", BlkC(t...), Lit("error"), Lit("h"), BlkC(Cmd("emit", Lit(g.label()), Var("h"))))
	}
	d, e := g.fresh("o"), g.fresh("o")
	out := []*Sentence{Cmd("set", Lit(d), dict()), Cmd("set", Lit(e), dict())}
	V := func() *Word { return Var(pick(g, []string{d, d, e})) }
	sorted := func(w *Word) *Word { return ExprC("list", w, Lit("sort")) }
	for i := 1 + g.N(4); i > 0; i-- {
		switch g.N(16) {
		case 14, 15:
			// subcommands, variables and methods with similar names
			names := []string{"m", "mo", "mod", "mode", "modes", "long", "longer", "longest", "lo", "M", "me", "met"}
			for j := range names {
				k := j + g.N(len(names)-j)
				names[j], names[k] = names[k], names[j]
			}
			n := g.fresh("e")
			var defs []*Sentence
			for j := 2 + g.N(4); j > 0; j-- {
				defs = append(defs, Cmd(pick(g, []string{"macro", "closure", "proc"}), Lit(names[j]), Tup(Lit("?u"), Lit("*z")), BlkC(Cmd("idem", Tup(Lit(names[j]), lit("%d", g.N(9)), ExprC("get", Lit("u"), Lit("none")))))))
			}
			w := Blk(Scr(defs...))
			w.Multi = true
			kind := g.N(5)
			out = append(out, []*Sentence{Cmd("namespace", Lit(n), w), Cmd("scope", Lit(n), w), Cmd("ensemble", Lit(n), Tup(), w), Cmd("ensemble", Lit(n), Tup(Lit("u")), w), Cmd("ensemble", Lit(n), Tup(Lit("?u"), Lit("v")), w)}[kind])
			for j := 1 + g.N(4); j > 0; j-- {
				m := pick(g, names)
				if g.Is(3) {
					m = m[:1+g.N(len(m))]
				} else if g.Is(4) {
					m += pick(g, []string{"s", "e", "er", "-"})
				}
				tail := []*Word{Lit(m)}
				for i := g.N(3); i > 0; i-- {
					tail = append(tail, lit("%d", g.N(90)))
				}
				var t *Sentence
				switch kind {
				case 0:
					t = Cmd(n, tail...)
					if g.Is(3) {
						t = Cmd(n, append([]*Word{Lit("call")}, tail...)...)
					}
				case 1:
					t = Cmd(n, append([]*Word{Lit("call")}, tail...)...)
				case 2:
					t = Cmd(n, tail...)
				default:
					t = Cmd(n, append([]*Word{lit("%d", g.N(90))}, tail...)...)
				}
				out = append(out, guarded(seen(Expr(Scr(t)))))
			}
		case 12, 13:
			// options with similar names, some given wrongly
			names := []string{"-f", "-first", "--fi", "--first", "--final", "--fin", "-g", "--f", "-G"}
			for j := range names {
				k := j + g.N(len(names)-j)
				names[j], names[k] = names[k], names[j]
			}
			var spec []*Word
			shown := []*Word{Lit(g.label())}
			k := 0
			for j := 2 + g.N(3); j > 0; j-- {
				o := Lit(names[k])
				k++
				if g.Is(3) && k+1 < len(names) {
					o = Tup(o, Lit(names[k]))
					k++
				}
				p := "p" + string(rune('0'+j))
				shown = append(shown, ExprC("get", Lit(p), Lit("none")))
				switch g.N(3) {
				case 0:
					spec = append(spec, o, Lit("?"+p))
				case 1:
					spec = append(spec, o, Tup(Lit("?"+p), lit("%d", g.N(9))))
				default:
					if o.Kind == WLit {
						o = Lit("?" + o.Text)
					}
					spec = append(spec, o, Lit("?"+p))
				}
			}
			spec = append(spec, pick(g, []*Word{Lit("u"), Lit("?u"), Lit("*u")}))
			shown = append(shown, ExprC("get", Lit("u"), Lit("none")))
			f := g.fresh("f")
			out = append(out, guarded(Cmd(pick(g, []string{"proc", "closure", "macro"}), Lit(f), Tup(spec...), BlkC(Cmd("emit", shown...)))))
			for j := 1 + g.N(3); j > 0; j-- {
				var as []*Word
				for i := g.N(3); i >= 0; i-- {
					n := pick(g, names)
					if g.Is(4) {
						n = pick(g, []string{"-", "--", "--fi", "--f", "-firs", "--fina", "-gg", "--first"})
					}
					as = append(as, Lit(n))
					if g.Is(2) {
						as = append(as, lit("%d", g.N(90)))
					}
				}
				for i := g.N(3); i > 0; i-- {
					as = append(as, lit("%d", g.N(90)))
				}
				out = append(out, guarded(Cmd(f, as...)))
			}
		case 0:
			out = append(out, seen(sorted(ExprC("dict", V(), Lit("keys"))), ExprC("list", ExprC("dict", V(), Lit("values")), Lit("length")), ExprC("list", ExprC("dict", V(), Lit("entries")), Lit("length"))))
		case 1:
			out = append(out, guarded(seen(ExprC("dict", V(), Lit("get"), Tup(key(), key(), key())))))
		case 2:
			out = append(out, Cmd("set", Lit(d), ExprC("dict", V(), Lit("merge"), V(), dict())), seen(Var(d)))
		case 3:
			out = append(out, Cmd("set", Lit(d), ExprC("dict", V(), Lit("remove"), key(), key())), seen(Var(d)))
		case 4, 5:
			// every entry once, with its own value
			l, c, m := g.label(), g.fresh("w"), g.fresh("w")
			var body []*Sentence
			if g.Is(3) {
				// suspended: only what does not depend on the order shows
				body = []*Sentence{Cmd("emit", Lit(l)), Cmd("yield", Lit(l))}
			} else {
				body = []*Sentence{Cmd("emit", Lit("D"), Lit(l), Var("k"), Var("x")), Cmd("set", Lit(m), ExprC("dict", Var(m), Lit("add"), Var("k"), Var("x")))}
				if g.Is(3) {
					body = append(body, Cmd("if", Expr(Scr(Cmd("string", Var("k"), Lit("=="), Lit("k1")))), BlkC(Cmd("continue"))))
				}
				body = append(body, Cmd("emit", Lit("D"), Lit(l), Var("k")))
			}
			body = append(body, Cmd("set", Lit(c), Expr(Scr(Sen(Var(c), Lit("+"), Lit("1"))))))
			head := [][]*Word{
				{Lit("loop"), Tup(Lit("k"), Lit("x")), V()},
				{Lit("loop"), Lit("i"), Tup(Lit("k"), Lit("x")), V()},
				{Lit("dict"), V(), Lit("foreach"), Tup(Lit("k"), Lit("x"))},
				{Lit("dict"), V(), Lit("foreach"), Lit("i"), Tup(Lit("k"), Lit("x"))}}[g.N(4)]
			out = append(out, Cmd("set", Tup(Lit(c), Lit(m)), Tup(Lit("0"), ExprC("dict", Tup()))),
				Sen(append(head, Blk(Scr(body...)))...), seen(Var(c), Var(m)))
		case 6:
			// many slots at once
			var ns, vs []*Word
			for j := 2 + g.N(6); j > 0; j-- {
				ns = append(ns, Lit(pick(g, []string{"a", "b", "p1", "p2", "p3", "x", "K1"})))
				vs = append(vs, lit("%d", g.N(90)))
			}
			out = append(out, guarded(Cmd("set", Tup(ns...), Tup(vs...))), seen(ExprC("get", Lit("a"), Lit("none")), ExprC("get", Lit("b"), Lit("none")), ExprC("get", Lit("p1"), Lit("none")), ExprC("get", Lit("p2"), Lit("none"))))
		case 7:
			f := g.fresh("f")
			out = append(out, Cmd(pick(g, []string{"proc", "closure", "macro"}), Lit(f), Tup(Lit("u"), Tup(Lit("?v"), BlkC(Cmd("tick", Lit(g.label())))), Tup(Lit("?w"), BlkC(Cmd("emit", Lit(g.label())), Cmd("idem", Lit("3")))), Lit("*z")),
				Blk(Scr(seen(Var("u"), Var("v"), Var("w"), Var("z")), Cmd("idem", Var("v"))))),
				guarded(Cmd(f, lit("%d", g.N(9))), Cmd(f, V(), lit("%d", g.N(9)), Lit("3"), Lit("4"))))
		case 8, 9:
			// listings of commands
			n := g.fresh("e")
			var defs []*Sentence
			for j := g.N(5); j > 0; j-- {
				defs = append(defs, Cmd(pick(g, []string{"macro", "closure", "proc"}), Lit(pick(g, []string{"m1", "m2", "m3", "m4", "m5"})), Tup(Lit("?x")), BlkC(Cmd("idem", lit("%d", g.N(9))))))
			}
			w := Blk(Scr(defs...))
			w.Multi = true
			kind := g.N(3)
			def := []*Sentence{Cmd("namespace", Lit(n), w), Cmd("ensemble", Lit(n), Tup(), w), Cmd("ensemble", Lit(n), Tup(Lit("u")), w)}[kind]
			args := []*Word{Lit(n), Lit("subcommands")}
			if kind == 2 {
				args = []*Word{Lit(n), Lit("8"), Lit("subcommands")}
			}
			list := func() *Word { return Expr(Scr(Sen(args...))) }
			out = append(out, def, seen(sorted(list())), guarded(Cmd("idem", ExprC(n, append(args[1:len(args)-1:len(args)-1], Lit("m2"))...))), seen(ExprC("list", list(), Lit("length"))))
		case 10:
			n := g.fresh("e")
			var defs []*Sentence
			for j := 1 + g.N(4); j > 0; j-- {
				m := pick(g, []string{"m1", "m2", "m3", "m4"})
				defs = append(defs, Cmd("macro", Lit(m), Tup(), BlkC(Cmd("idem", lit("%d", g.N(9))))), Cmd("export", Lit(m)))
			}
			out = append(out, Cmd("module", Lit(n), Blk(Scr(defs...))), seen(ExprC("list", ExprC(n, Lit("exports")), Lit("sort"))),
				guarded(Cmd(n, Lit("import"), Lit("m1"), Lit(n+"i")), seen(ExprC(n+"i"))))
		default:
			out = append(out, seen(ExprC("dict", V(), Lit("size")), ExprC("dict", V(), Lit("has"), key()), V()))
		}
	}
	return out
}

// what outlives a call, a turn or a handler, and keeps working on its
// variables (P05).
func focusLocals(g *G, s *gs) []*Sentence {
	mk := g.fresh("mk")
	show := func(w ...*Word) *Sentence { return Cmd("emit", append([]*Word{Lit(g.label())}, w...)...) }
	inc := func(v string) *Sentence {
		return Cmd("set", Lit(v), Expr(Scr(Sen(Var(v), Lit("+"), pick(g, []*Word{Lit("1"), ExprC("tick", Lit(g.label()), Lit("2")), Var("x")})))))
	}
	tick := func() []*Sentence {
		if g.Is(2) {
			return one(Cmd("tick", Lit(g.label())))
		}
		return nil
	}
	guarded := func(t *Sentence) *Sentence {
		return Cmd("catch", BlkC(show(Expr(Scr(t)))), Lit("error"), Lit("h"), BlkC(show(Var("h"))))
	}
	inner := func(params ...*Word) *Word {
		b := Scr(append(append(tick(), show(Var("x"), Var("y"))), append(tick(), inc("y"), show(Var("x"), Var("y")))...)...)
		if g.Is(4) {
			b.Sents = append(b.Sents, Cmd("loop", Lit("x"), ExprC("list", Tup(Lit("7"), Lit("8"))), BlkC(show(Var("x"), Var("y")), Cmd("tick", Lit(g.label())))))
		}
		b.Sents = append(b.Sents, Cmd("idem", Tup(Var("x"), Var("y"))))
		w := Blk(b)
		w.Multi = true
		return w
	}
	kind := g.N(7)
	use := func(v string) *Sentence { return Sen(Expr(Scr(Sen(Var(v))))) }
	var made *Word
	switch kind {
	case 0, 1:
		made = ExprC("closure", Tup(), inner())
	case 2:
		made = ExprC("closure", Tup(Lit("z"), Tup(Lit("?w"), BlkC(Cmd("emit", Lit(g.label())), Cmd("idem", Var("y"))))), inner())
		use = func(v string) *Sentence { return Sen(Expr(Scr(Sen(Var(v)))), g.Num(s, 3)) }
	case 3, 4:
		w := inner()
		w.Sub.Sents = append([]*Sentence{Cmd("yield", Var("x")), inc("y")}, w.Sub.Sents...)
		made = ExprC("coroutine", w)
		use = func(v string) *Sentence {
			return pick(g, []*Sentence{Sen(Var(v), Lit("wait")), Sen(Var(v), Lit("wait")), Sen(Var(v), Lit("yield"), g.Num(s, 3)), Sen(Var(v), Lit("done"))})
		}
	case 5:
		made = ExprC("namespace", BlkC(Cmd("set", Tup(Lit("x"), Lit("y")), Tup(lit("%d", g.N(9)), lit("%d", g.N(9)))), Cmd("closure", Lit("m"), Tup(), inner())))
		use = func(v string) *Sentence { return Sen(Var(v), Lit("call"), Lit("m")) }
	default:
		made = ExprC("scope", BlkC(Cmd("set", Tup(Lit("x"), Lit("y")), Tup(lit("%d", g.N(9)), lit("%d", g.N(9))))))
		use = func(v string) *Sentence { return Sen(Var(v), Lit("eval"), inner()) }
	}
	var out []*Sentence
	var have []string
	switch g.N(6) {
	case 0, 1, 2, 3:
		// made in calls
		body := &Script{}
		if g.Is(2) {
			body.Sents = append(body.Sents, Cmd("set", Lit("y"), Expr(Scr(Sen(Var("x"), Lit("*"), Lit("10"))))))
		} else {
			body.Sents = append(body.Sents, Cmd("set", Lit("y"), Lit("0")), Cmd("tick", Lit(g.label())), inc("y"))
		}
		switch g.N(3) {
		case 0:
			body.Sents = append(body.Sents, Cmd("idem", made))
		case 1:
			body.Sents = append(body.Sents, Cmd("return", made))
		default:
			body.Sents = append(body.Sents, Cmd("set", Lit("q"), made), Cmd("tick", Lit(g.label())))
			body.Sents = append(body.Sents, Cmd("idem", Var("q")))
		}
		w := Blk(body)
		w.Multi = true
		if g.Is(3) && kind < 5 {
			// a closure that makes others: they share the scope it was made in
			out = append(out, Cmd("closure", Lit(mk), Tup(Lit("x")), w))
		} else {
			out = append(out, Cmd("proc", Lit(mk), Tup(Lit("x")), w))
		}
		for i := 2 + g.N(2); i > 0; i-- {
			v := g.fresh("o")
			have = append(have, v)
			out = append(out, Cmd("set", Lit(v), ExprC(mk, lit("%d", g.N(9)))))
			if g.Is(3) {
				out = append(out, guarded(use(v)))
			}
		}
	case 4:
		// made in the turns of a loop
		base := g.fresh("o")
		out = append(out, Cmd("set", Lit("y"), Lit("1")), Cmd("loop", Lit("i"), Lit("x"), ExprC("list", Tup(Lit("1"), Lit("2"), Lit("3"))), BlkC(
			Cmd("set", Str(Lit(base), Expr(Scr(Cmd("idem", Var("i"))))), made), Cmd("tick", Lit(g.label())))))
		for i := 0; i < 3; i++ {
			have = append(have, base+string(rune('0'+i)))
		}
	default:
		// made in a handler
		v := g.fresh("o")
		have = append(have, v)
		out = append(out, Cmd("set", Lit("y"), Lit("1")), Cmd("catch", BlkC(Cmd("error", lit("%d", g.N(9)))), Lit("error"), Lit("x"), BlkC(Cmd("set", Lit(v), made), Cmd("tick", Lit(g.label())))),
			Cmd("catch", BlkC(Cmd("error", Lit("other"))), Lit("error"), Lit("x"), BlkC(guarded(use(v)))))
	}
	for i := 2 + g.N(5); i > 0; i-- {
		t := guarded(use(pick(g, have)))
		if g.Is(5) {
			t = Cmd("loop", Lit("x"), ExprC("list", Tup(Lit("5"), Lit("6"))), BlkC(t, show(Var("x"))))
		}
		out = append(out, t)
		if g.Is(5) && len(out) > 0 {
			out = append(out, Cmd("catch", BlkC(show(ExprC(mk, Lit("4")))), Lit("error"), Lit("h"), BlkC(show(Var("h")))))
		}
	}
	return out
}

// focusShared makes commands of the root that several activities call and
// that keep their progress somewhere while they are suspended (P02).
func focusShared(g *G, s *gs) []*Sentence {
	show := func(ws ...*Word) *Sentence { return Cmd("emit", append([]*Word{Lit(g.label())}, ws...)...) }
	tick := func() *Sentence { return Cmd("tick", Lit(g.label()), lit("%d", g.N(9))) }
	// values whose calls suspend
	target := func() (*Word, int) {
		switch g.N(9) {
		case 0, 1:
			return Tup(Lit("steps"), lit("%d", 1+g.N(3))), 0
		case 2:
			return Lit("steps"), 1
		case 3:
			return Tup(Lit("catch"), BlkC(tick(), Cmd("error", Lit("bad"))), Lit("error"), Lit("h"), BlkC(tick(), show(Var("h")), tick()), Lit("finally"), BlkC(tick(), show())), 0
		case 4:
			return Tup(Lit("catch"), BlkC(Cmd("yield", Lit("7")), tick()), Lit("yield"), Lit("h"), BlkC(tick(), Cmd("idem", Var("h")))), 0
		case 5:
			return Tup(Lit("loop"), Lit("i"), Lit("x"), ExprC("list", Tup(Lit("4"), Lit("5"))), BlkC(tick(), show(Var("i"), Var("x")))), 0
		case 6:
			return Tup(Lit("list"), Tup(Lit("4"), Lit("5")), Lit("foreach"), Lit("x"), BlkC(tick(), show(Var("x")))), 0
		case 7:
			return Tup(Lit("eval"), BlkC(tick(), show(), Cmd("yield", Lit("3")))), 0
		default:
			return Tup(Lit("tick"), Lit(g.label())), 0
		}
	}
	if g.shared == nil {
		g.shared = &[]cmdInfo{}
	}
	var out []*Sentence
	if len(*g.shared) == 0 || g.Is(4) {
		n := g.fresh("sh")
		w, k := target()
		info := cmdInfo{name: n, kind: "call", min: k, max: k}
		switch g.N(6) {
		case 0, 1, 2:
			out = append(out, Cmd("alias", Lit(n), w))
			if g.Is(3) {
				m := g.fresh("sh")
				out = append(out, Cmd("alias", Lit(m), Tup(Lit(n))))
				info.name = m
			}
		case 3:
			// as a subcommand
			out = append(out, Cmd("ensemble", Lit(n), Tup(Tup(Lit("idem"), Lit("v"))), BlkC(
				Cmd("proc", Lit("m"), Tup(Lit("v")), BlkC(tick(), show(Var("v")), Cmd("steps", Lit("1")))),
				Cmd("alias", Lit("k"), Lit("steps")))))
			info.kind = "ensemble"
		case 4:
			out = append(out, Cmd("namespace", Lit(n), BlkC(Cmd("alias", Lit("m"), w))))
			info.kind = "namespace"
		default:
			out = append(out, Cmd("proc", Lit(n), Tup(Tup(Tup(Lit("steps"), Lit("2")), Lit("?v"), Lit("1"))), BlkC(tick(), show(), Cmd("idem", Lit("1")))))
			info.min, info.max = 0, 0
		}
		*g.shared = append(*g.shared, info)
	}
	call := func() *Sentence {
		i := pick(g, *g.shared)
		var args []*Word
		for k := 0; k < i.min; k++ {
			args = append(args, lit("%d", 1+g.N(3)))
		}
		switch i.kind {
		case "ensemble":
			return Cmd(i.name, lit("%d", 1+g.N(3)), Lit(pick(g, []string{"m", "k"})))
		case "namespace":
			return Cmd(i.name, append([]*Word{Lit("m")}, args...)...)
		}
		switch g.N(5) {
		case 0:
			return Sen(append([]*Word{Tup(Lit(i.name))}, args...)...)
		}
		return Cmd(i.name, args...)
	}
	for k := 1 + g.N(2); k > 0; k-- {
		t := Cmd("emit", Lit(g.label()), Expr(Scr(call())))
		switch g.N(5) {
		case 0:
			n := g.fresh("co")
			out = append(out, Cmd("set", Lit(n), ExprC("coroutine", BlkC(t, Cmd("emit", Lit(g.label()), Expr(Scr(call())))))))
			s.co = append(s.co, n)
			out = append(out, show(Expr(Scr(Sen(Var(n), Lit("wait"))))))
		case 1:
			out = append(out, Cmd("catch", BlkC(t, Cmd("break")), Lit("break"), BlkC(Cmd("emit", Lit(g.label()), Expr(Scr(call()))))))
		default:
			out = append(out, t)
		}
	}
	return out
}
