package main

import (
	. "helena/verifsim/model"
)

// Kinds of statements. Those whose name starts with * nest.
var stmtKinds []stmtKind

func init() {
	stmtKinds = []stmtKind{
		{"emit", 10, func(g *G, s *gs) []*Sentence {
			ws := []*Word{Lit(g.label())}
			for i := g.N(3); i >= 0; i-- {
				ws = append(ws, g.Any(s, 1))
			}
			return one(Cmd("emit", ws...))
		}},
		{"set", 12, func(g *G, s *gs) []*Sentence {
			switch g.N(8) {
			case 0, 1, 2, 3:
				if n := g.target(s.num, s); n != "" {
					return one(Cmd("set", Lit(n), g.Num(s, 0)))
				}
				n := g.fresh("n")
				w := g.Num(s, 0)
				s.num = append(s.num, n)
				return one(Cmd("set", Lit(n), w))
			case 4:
				if n := g.target(s.str, s); n != "" {
					return one(Cmd("set", Lit(n), g.Str(s, 0)))
				}
			case 5:
				if n := g.target(s.lst, s); n != "" {
					return one(Cmd("set", Lit(n), g.List(s, 0)))
				}
			case 6:
				if n := g.target(s.dct, s); n != "" {
					return one(Cmd("set", Lit(n), g.Dict(s, 0)))
				}
			case 7:
				if n := g.target(s.tup, s); n != "" {
					return one(Cmd("set", Lit(n), g.Tuple(s, 0)))
				}
			}
			return nil
		}},
		{"tick", 8, func(g *G, s *gs) []*Sentence { return one(Cmd("tick", Lit(g.label()))) }},
		{"steps", 2, func(g *G, s *gs) []*Sentence {
			return one(Cmd("emit", Lit(g.label()), ExprC("steps", lit("%d", 1+g.N(3)))))
		}},
		{"yield", 3, func(g *G, s *gs) []*Sentence {
			return one(Cmd("emit", Lit(g.label()), ExprC("yield", g.Any(s, 1))))
		}},
		{"multiset", 2, func(g *G, s *gs) []*Sentence { return one(g.multi(s)) }},
		{"let", 1, func(g *G, s *gs) []*Sentence {
			n := g.fresh("k")
			w := g.Any(s, 1)
			s.num = append(s.num, n)
			s.locals = append(append([]string{}, s.locals...), n)
			return one(Cmd("let", Lit(n), w))
		}},
		{"unset", 1, func(g *G, s *gs) []*Sentence {
			n := g.fresh("z")
			return []*Sentence{Cmd("set", Lit(n), g.Num(s, 1)), Cmd("unset", Lit(n)), Cmd("emit", Lit(g.label()), ExprC("exists", Lit(n)))}
		}},
		{"get", 1, func(g *G, s *gs) []*Sentence {
			if len(s.num) == 0 {
				return nil
			}
			switch g.N(4) {
			case 0:
				return one(Cmd("emit", Lit(g.label()), ExprC("get", Lit(pick(g, s.num)), Lit("none"))))
			case 1:
				return one(Cmd("emit", Lit(g.label()), ExprC("get", Tup(Lit(pick(g, s.num)), Lit(pick(g, s.num))))))
			case 2:
				if len(s.lst) > 0 {
					q := &Word{Kind: WQual, Text: pick(g, s.lst), Sel: []Sel{{false, Scr(Cmd("idem", g.Num(s, 1)))}}}
					if len(s.lst) > 1 && g.N(3) == 2 {
						q.Sub = Scr(Sen(Lit(s.lst[0]), Lit(pick(g, s.lst))))
						return one(Cmd("emit", Lit(g.label()), ExprC("get", q), ExprC("exists", q)))
					}
					if g.N(3) == 2 {
						return one(Cmd("emit", Lit(g.label()), ExprC("exists", q), ExprC("exists", Tup(Lit(pick(g, s.lst)), Lit("nosuch")))))
					}
					return one(Cmd("emit", Lit(g.label()), ExprC("get", q, Lit("none"))))
				}
			}
			return one(Cmd("emit", Lit(g.label()), ExprC("get", Lit("nosuch"), g.Num(s, 1))))
		}},
		{"*if", 6, func(g *G, s *gs) []*Sentence {
			ws := []*Word{g.Cond(s, 1), g.Block(s.sub())}
			for g.N(3) == 2 && len(ws) < 8 {
				ws = append(ws, Lit("elseif"), g.Cond(s, 1), g.Block(s.sub()))
			}
			if g.Is(2) {
				ws = append(ws, Lit("else"), g.Block(s.sub()))
			}
			return one(g.used(s, Cmd("if", ws...)))
		}},
		{"*while", 4, func(g *G, s *gs) []*Sentence {
			n := g.fresh("w")
			sub := s.sub()
			sub.loop = true
			b := g.Block(sub)
			inc := Cmd("set", Lit(n), Expr(Scr(Sen(Var(n), Lit("+"), Lit("1")))))
			b.Sub.Sents = append([]*Sentence{inc}, b.Sub.Sents...)
			cond := Sen(Var(n), Lit("<"), lit("%d", 1+g.N(4)))
			var t *Word
			switch g.N(4) {
			case 0:
				t = Blk(Scr(cond))
			case 3:
				// endless but for its body
				stop := Cmd("if", Blk(Scr(Sen(Var(n), Lit(">"), lit("%d", 1+g.N(4))))), BlkC(Cmd("break")))
				b.Sub.Sents = append([]*Sentence{inc, stop}, b.Sub.Sents[1:]...)
				return []*Sentence{Cmd("set", Lit(n), Lit("0")), g.used(s, Cmd("while", Lit(pick(g, []string{"true", "true", "true", "1"})), b))}
			case 1:
				t = BlkC(Cmd("tick", Lit(g.label())), cond)
			default:
				t = BlkC(Cmd("&&", Blk(Scr(cond)), BlkC(Cmd("tick", Lit(g.label()), Lit("true")))))
			}
			return []*Sentence{Cmd("set", Lit(n), Lit("0")), g.used(s, Cmd("while", t, b))}
		}},
		{"*loop", 5, func(g *G, s *gs) []*Sentence { return g.loopStmt(s) }},
		{"*foreach", 4, func(g *G, s *gs) []*Sentence {
			x, i := "x", "i"
			params := []string{x}
			var shape *Word = Lit(x)
			if g.Is(4) {
				shape = Tup(Lit(x), Lit("y"))
				params = append(params, "y")
			}
			var idx []*Word
			if g.Is(2) {
				idx = []*Word{Lit(i)}
				params = append(params, i)
			}
			var src *Word
			if len(params) > 1 && shape.Kind == WTup {
				src = ExprC("list", Tup(Tup(g.Num(s, 2), g.Num(s, 2)), Tup(g.Num(s, 2), g.Num(s, 2), Lit("0"))))
			} else {
				src = g.List(s, 1)
			}
			sub := s.local(s, params...)
			sub.loop = true
			sub.num = append(sub.num, params...)
			ws := append([]*Word{src, Lit("foreach")}, idx...)
			return one(g.used(s, Cmd("list", append(ws, shape, g.Block(sub))...)))
		}},
		{"*sort", 1, func(g *G, s *gs) []*Sentence {
			// two elements: one comparison, whichever way round
			a := g.N(9)
			b := (a + 1 + g.N(8)) % 9
			sub := s.local(s, "x", "y")
			sub.fn = true
			body := g.Block(sub)
			body.Sub.Sents = append(body.Sub.Sents, Sen(Var("x"), Lit("-"), Var("y")))
			cmp := Expr(Scr(Sen(ExprC(pick(g, []string{"closure", "macro"}), Tup(Lit("x"), Lit("y")), body))))
			return one(g.used(s, Cmd("list", Tup(lit("%d", a), lit("%d", b)), Lit("sort"), cmp)))
		}},
		{"*dictforeach", 1, func(g *G, s *gs) []*Sentence {
			params := []string{"k", "x"}
			sub := s.local(s, params...)
			sub.loop = true
			sub.str = append(sub.str, "k")
			sub.num = append(sub.num, "x")
			if g.NoDictOrder {
				// commutative body, result dropped
				l := g.label()
				return []*Sentence{Cmd("dict", g.Dict(s, 1), Lit("foreach"), Tup(Lit("k"), Lit("x")), BlkC(Cmd("emit", Lit("D"), Lit(l), Var("k"), Var("x")))),
					Cmd("emit", Lit(g.label()))}
			}
			return one(g.used(s, Cmd("dict", g.Dict(s, 1), Lit("foreach"), Tup(Lit("k"), Lit("x")), g.Block(sub))))
		}},
		{"*when", 3, func(g *G, s *gs) []*Sentence { return one(g.used(s, g.when(s))) }},
		{"*catch", 6, func(g *G, s *gs) []*Sentence { return one(g.used(s, g.catch(s))) }},
		{"*eval", 2, func(g *G, s *gs) []*Sentence {
			if g.Is(4) {
				if c := g.call(s, 2); c != nil {
					return one(g.used(s, Cmd("eval", &Word{Kind: WTup, Sub: Scr(c)})))
				}
			}
			return one(g.used(s, Cmd("eval", g.Block(s.sub()))))
		}},
		{"*def", 4, func(g *G, s *gs) []*Sentence {
			out := one(g.def(s))
			x := s.cmds[len(s.cmds)-1]
			for g.N(3) > 0 && len(out) < 4 {
				out = append(out, g.used(s, g.callOf(s, 1, x, nil)))
			}
			return out
		}},
		{"call", 6, func(g *G, s *gs) []*Sentence {
			if c := g.call(s, 1); c != nil {
				return one(g.used(s, c))
			}
			return nil
		}},
		{"*scope", 1, func(g *G, s *gs) []*Sentence {
			out := g.scopeDef(s)
			x := s.cmds[len(s.cmds)-1]
			for g.N(3) > 0 && len(out) < 3 {
				out = append(out, g.subCallOf(s, x)...)
			}
			return out
		}},
		{"*namespace", 1, func(g *G, s *gs) []*Sentence {
			out := g.namespaceDef(s)
			x := s.cmds[len(s.cmds)-1]
			for g.N(3) > 0 && len(out) < 3 {
				out = append(out, g.subCallOf(s, x)...)
			}
			return out
		}},
		{"*ensemble", 1, func(g *G, s *gs) []*Sentence {
			out := g.ensembleDef(s)
			x := s.cmds[len(s.cmds)-1]
			for g.N(3) > 0 && len(out) < 3 {
				out = append(out, g.subCallOf(s, x)...)
			}
			return out
		}},
		{"sub", 4, func(g *G, s *gs) []*Sentence { return g.subCall(s) }},
		{"*coroutine", 3, func(g *G, s *gs) []*Sentence {
			n := g.fresh("co")
			sub := s.sub()
			b := g.Block(sub)
			out := []*Sentence{Cmd("set", Lit(n), ExprC("coroutine", b))}
			s.co = append(s.co, n)
			return out
		}},
		{"co", 4, func(g *G, s *gs) []*Sentence {
			if len(s.co) == 0 {
				return nil
			}
			return one(Cmd("emit", Lit(g.label()), Expr(Scr(g.coOp(s, 1)))))
		}},
		{"*alias", 1, func(g *G, s *gs) []*Sentence {
			n := g.fresh("al")
			switch g.N(3) {
			case 0:
				s.cmds = append(s.cmds, cmdInfo{name: n, kind: "call", min: 1, max: 1})
				return one(Cmd("alias", Lit(n), Lit("idem")))
			case 1:
				s.cmds = append(s.cmds, cmdInfo{name: n, kind: "call", min: 1, max: 2})
				return one(Cmd("alias", Lit(n), Tup(Lit("+"), g.Num(s, 1))))
			default:
				s.cmds = append(s.cmds, cmdInfo{name: n, kind: "call", min: 1, max: 1})
				return one(Cmd("alias", Lit(n), Tup(Lit("tick"), Lit(g.label()))))
			}
		}},
		{"chain", 1, func(g *G, s *gs) []*Sentence {
			return []*Sentence{Cmd("idem", g.Num(s, 1)), Cmd("|>", Lit("+"), g.Num(s, 1)), Cmd("|>", Lit("tick"), Lit(g.label()))}
		}},
		{"result", 1, func(g *G, s *gs) []*Sentence {
			return []*Sentence{Cmd("idem", g.Num(s, 1)), Cmd("emit", Lit(g.label()), ExprC("^"))}
		}},
		{"prefix", 1, func(g *G, s *gs) []*Sentence {
			switch g.N(3) {
			case 0:
				return one(Cmd("emit", Lit(g.label()), Expr(Scr(Sen(Tup(Lit("list"), g.List(s, 2)), Lit("length"))))))
			case 1:
				if c := g.call(s, 2); c != nil {
					k := 1 + g.N(len(c.Words))
					return one(Cmd("emit", Lit(g.label()), Expr(Scr(Sen(append([]*Word{Tup(c.Words[:k]...)}, c.Words[k:]...)...)))))
				}
			}
			if g.Is(2) {
				return one(Cmd("emit", Lit(g.label()), Expr(Scr(Sen(Tup(Lit("steps")), lit("%d", 1+g.N(4)))))))
			}
			return one(Cmd("emit", Lit(g.label()), Expr(Scr(Sen(Tup(Tup(Lit("tick"), Lit(g.label()))), g.Num(s, 2))))))
		}},
		{"expand", 1, func(g *G, s *gs) []*Sentence {
			w := Expr(Scr(Cmd("idem", Tup(g.Num(s, 2), g.Num(s, 2)))))
			w.Expand = true
			return one(Cmd("emit", Lit(g.label()), w, g.Num(s, 2)))
		}},
		{"keep", 1, func(g *G, s *gs) []*Sentence { return one(Cmd("keep", g.Any(s, 1))) }},
		{"sort", 1, func(g *G, s *gs) []*Sentence {
			src := pick(g, []*Word{
				ExprC("list", Tup(Lit("3"), Lit("1"), Lit("2"))),
				ExprC("list", Tup(Lit("5"), Lit("2"), Lit("9"), Lit("4")))})
			cmp := ExprC("closure", Tup(Lit("x"), Lit("y")), BlkC(Sen(Var("x"), Lit("-"), Var("y"))))
			return one(Cmd("emit", Lit(g.label()), ExprC("list", src, Lit("sort"), Expr(Scr(Sen(cmp))))))
		}},
		{"error", 1, func(g *G, s *gs) []*Sentence {
			if s.depth == 0 {
				return nil
			}
			return one(Cmd("error", g.Str(s, 1)))
		}},
		{"return", 1, func(g *G, s *gs) []*Sentence {
			if s.depth == 0 {
				return nil
			}
			return one(Cmd("return", g.Any(s, 1)))
		}},
		{"break", 1, func(g *G, s *gs) []*Sentence {
			if !s.loop {
				return nil
			}
			return one(Cmd("if", g.Cond(s, 1), BlkC(Cmd(pick(g, []string{"break", "continue"})))))
		}},
		{"pass", 0, func(g *G, s *gs) []*Sentence { return one(Cmd("pass")) }},
		{"argspecset", 1, func(g *G, s *gs) []*Sentence {
			ws := []*Word{Lit("a"), Lit("?b")}
			return one(Cmd("argspec", Tup(ws...), Lit("set"), Tup(g.Num(s, 1), g.Num(s, 1))))
		}},
		{"misuse", 2, func(g *G, s *gs) []*Sentence { return g.misuse(s) }},
		{"extend", 1, func(g *G, s *gs) []*Sentence { return g.extend(s) }},
		{"*recurse", 1, func(g *G, s *gs) []*Sentence { return g.recurse(s) }},
	}
}

// recurse defines and calls a command that calls itself, once or several times.
func (g *G) recurse(s *gs) []*Sentence {
	n := g.fresh("rec")
	kind := pick(g, []string{"proc", "proc", "closure", "closure", "macro"})
	sub := s2(s)
	sub.num, sub.fn, sub.depth = []string{"n", "y"}, true, s.depth+2
	if kind != "proc" {
		sub.locals = []string{"n", "y"}
	}
	less := func(y *Word) *Word { return ExprC(n, Expr(Scr(Sen(Var("n"), Lit("-"), Lit("1")))), y) }
	shows := func(ws ...*Word) *Sentence { return Cmd("emit", append([]*Word{Lit(g.label())}, ws...)...) }
	body := &Script{}
	if g.Is(2) {
		body.Sents = append(body.Sents, Cmd("eval", Blk(g.Body(sub, 1))))
	}
	y, z := g.fresh("v"), g.fresh("v")
	body.Sents = append(body.Sents, Cmd("set", Lit(y), ExprC("tick", Lit(g.label()), Var("n"))))
	calls := 1 + g.N(3)
	for i := 0; i < calls; i++ {
		if i > 0 && g.Is(2) {
			body.Sents = append(body.Sents, Cmd("tick", Lit(g.label())))
		}
		switch g.N(4) {
		case 0:
			body.Sents = append(body.Sents, Cmd("set", Lit(z), less(Var("y"))), shows(Var("n"), Var("y"), Var(z)))
		case 1:
			body.Sents = append(body.Sents, shows(less(Var(y)), Var("n"), Var("y")))
		case 2:
			body.Sents = append(body.Sents, shows(Tup(Var("n"), less(Var("n")), Var("n"), Var("y"))))
		default:
			body.Sents = append(body.Sents, Cmd("if", ExprC("tick", Lit(g.label()), Lit("true")), BlkC(Cmd("idem", less(Expr(Scr(Sen(Var("y"), Lit("+"), Lit("1")))))))))
		}
	}
	if g.Is(2) {
		body.Sents = append(body.Sents, Cmd("eval", Blk(g.Body(sub, 1))))
	}
	body.Sents = append(body.Sents, shows(Var("n"), Var("y")), Cmd("idem", Tup(Var("n"), Var("y"))))
	stop := Expr(Scr(Sen(Var("n"), Lit("<="), Lit("0"))))
	var w *Word
	if kind == "proc" && g.Is(2) {
		body.Sents = append([]*Sentence{Cmd("if", stop, BlkC(Cmd("return", Tup(Var("n"), Var("y")))))}, body.Sents...)
		w = Blk(body)
	} else {
		w = BlkC(Cmd("if", stop, BlkC(Cmd("tick", Lit(g.label())), Cmd("idem", Tup(Var("n"), Var("y")))), Lit("else"), Blk(body)))
	}
	w.Multi = true
	deep := 1 + g.N(4-calls)
	return []*Sentence{Cmd(kind, Lit(n), Tup(Lit("n"), Lit("y")), w),
		g.used(s, Cmd(n, lit("%d", deep), g.Num(s, 1)))}
}

// used puts the value of a statement to use, or not.
func (g *G) used(s *gs, t *Sentence) *Sentence {
	switch g.N(5) {
	case 0, 1:
		return t
	case 2, 3:
		return Cmd("emit", Lit(g.label()), Expr(Scr(t)))
	default:
		n := g.target(s.any, s)
		if n == "" || g.N(3) == 2 {
			n = g.fresh("v")
			s.any = append(s.any, n)
		}
		return Cmd("set", Lit(n), Expr(Scr(t)))
	}
}

func (g *G) multi(s *gs) *Sentence {
	var names, vals []*Word
	for i := 1 + g.N(3); i >= 0; i-- {
		n := g.target(s.num, s)
		if n == "" {
			n = g.fresh("n")
			s.num = append(s.num, n)
		}
		if g.Is(4) {
			m := g.target(s.num, s)
			if m == "" {
				m = n
			}
			names = append(names, Tup(Lit(n), Lit(m)))
			vals = append(vals, Tup(g.Num(s, 1), g.Num(s, 1)))
		} else {
			names = append(names, Lit(n))
			vals = append(vals, g.Num(s, 1))
		}
	}
	if g.slip() {
		vals = vals[1:]
	}
	return Cmd("set", Tup(names...), Tup(vals...))
}

func (g *G) loopStmt(s *gs) []*Sentence {
	var ws []*Word
	params := []string{}
	if g.Is(2) {
		ws = append(ws, Lit("i"))
		params = append(params, "i")
	}
	ns := g.N(4)
	names := []string{"x", "y", "z"}
	var nums, strs, whole []string
	if len(params) > 0 {
		nums = append(nums, "i")
	}
	type src struct{ shape, w *Word }
	var srcs []src
	for k := 0; k < ns && k < 3; k++ {
		n := names[k]
		params = append(params, n)
		switch g.N(7) {
		case 0, 1, 2:
			nums = append(nums, n)
			srcs = append(srcs, src{Lit(n), g.List(s, 1)})
		case 3:
			if g.NoDictOrder {
				nums = append(nums, n)
				srcs = append(srcs, src{Lit(n), g.List(s, 1)})
				break
			}
			if g.Is(3) {
				// the entries as they are
				srcs = append(srcs, src{Lit(n), g.Dict(s, 1)})
				whole = append(whole, n)
				break
			}
			params = append(params, n+"v")
			strs = append(strs, n)
			srcs = append(srcs, src{Tup(Lit(n), Lit(n+"v")), g.Dict(s, 1)})
		case 4:
			// script source ending by break
			nums = append(nums, n)
			c := g.fresh("g")
			srcs = append(srcs, src{Lit(n), BlkC(
				Cmd("if", Expr(Scr(Sen(ExprC("get", Lit(c), Lit("0")), Lit(">="), lit("%d", g.N(4))))), BlkC(Cmd("break"))),
				Cmd("set", Lit(c), Expr(Scr(Sen(ExprC("get", Lit(c), Lit("0")), Lit("+"), Lit("1"))))),
				Cmd("tick", Lit(g.label()), Var(c)))})
		case 5:
			// generator command
			nums = append(nums, n)
			srcs = append(srcs, src{Lit(n), Expr(Scr(Sen(ExprC("closure", Tup(Lit("i")), BlkC(
				Cmd("if", Expr(Scr(Sen(Var("i"), Lit(">="), lit("%d", g.N(5))))), BlkC(Cmd("break"))),
				Cmd("tick", Lit(g.label())),
				Sen(Var("i"), Lit("*"), Lit("2")))))))})
		default:
			// a source that skips
			nums = append(nums, n)
			srcs = append(srcs, src{Lit(n), Expr(Scr(Sen(ExprC("closure", Tup(Lit("i")), BlkC(
				Cmd("if", Expr(Scr(Sen(Var("i"), Lit(">="), lit("%d", 1+g.N(5))))), BlkC(Cmd("break"))),
				Cmd("if", Expr(Scr(Sen(Var("i"), Lit("=="), lit("%d", g.N(3))))), BlkC(Cmd("continue"))),
				Cmd("idem", Var("i")))))))})
		}
	}
	sub := s.local(s, params...)
	sub.loop = true
	sub.num = append(sub.num, nums...)
	sub.str = append(sub.str, strs...)
	b := g.Block(sub)
	for _, n := range whole {
		acc := g.fresh("k")
		b.Sub.Sents = append([]*Sentence{
			Cmd("set", Lit(acc), ExprC("list", ExprC("get", Lit(acc), Tup()), Lit("append"), Tup(ExprC("get", Lit(n), Lit("none"))))),
			Cmd("emit", Lit(g.label()), Var(acc))}, b.Sub.Sents...)
	}
	if len(srcs) == 0 {
		c := g.fresh("h")
		b.Sub.Sents = append([]*Sentence{
			Cmd("set", Lit(c), Expr(Scr(Sen(ExprC("get", Lit(c), Lit("0")), Lit("+"), Lit("1"))))),
			Cmd("if", Expr(Scr(Sen(Var(c), Lit(">"), lit("%d", g.N(4))))), BlkC(Cmd("break")))}, b.Sub.Sents...)
	}
	for _, x := range srcs {
		ws = append(ws, x.shape, x.w)
	}
	ws = append(ws, b)
	return one(g.used(s, Cmd("loop", ws...)))
}

func (g *G) when(s *gs) *Sentence {
	var cases []*Word
	cmdForm := g.N(4)
	for i := 1 + g.N(3); i > 0; i-- {
		var t *Word
		switch cmdForm {
		case 0, 1:
			t = g.Cond(s, 1)
			if t.Kind == WExpr {
				t = Blk(t.Sub)
			}
		case 2:
			t = Tup(Lit(pick(g, []string{"==", "<", ">"})), lit("%d", g.N(4)))
		default:
			t = Tup(Lit(pick(g, []string{"==", "<", ">"})), lit("%d", g.N(4)))
		}
		cases = append(cases, t, g.Block(s.sub()))
	}
	if g.Is(2) {
		cases = append(cases, g.Block(s.sub()))
	}
	switch cmdForm {
	case 0, 1:
		return Cmd("when", Tup(cases...))
	case 2:
		return Cmd("when", g.Num(s, 1), Tup(cases...))
	default:
		return Cmd("when", BlkC(Cmd("tick", Lit(g.label()), g.Num(s, 2))), Tup(cases...))
	}
}

func (g *G) catch(s *gs) *Sentence {
	body := g.Block(s.sub())
	if g.Is(2) {
		body.Sub.Sents = append([]*Sentence{Cmd("tick", Lit(g.label()))}, body.Sub.Sents...)
	}
	ws := []*Word{body}
	handlers := []string{"error", "return", "yield", "break", "continue", "finally"}
	for _, h := range handlers {
		if g.N(3) != 2 && !(h == "error" && g.Is(2)) {
			continue
		}
		var b *Word
		switch h {
		case "error", "return", "yield":
			sub := s.local(s, "h")
			if h == "error" {
				sub.str = append(sub.str, "h")
			} else {
				sub.num = append(sub.num, "h")
			}
			b = g.handler(sub)
			ws = append(ws, Lit(h), Lit("h"), b)
		default:
			b = g.handler(s.sub())
			ws = append(ws, Lit(h), b)
		}
	}
	return Cmd("catch", ws...)
}
func (g *G) handler(s *gs) *Word {
	b := g.Block(s)
	switch g.N(6) {
	case 0:
		b.Sub.Sents = append(b.Sub.Sents, Cmd("pass"))
	case 1:
		b.Sub.Sents = append([]*Sentence{Cmd("emit", Lit(g.label()))}, b.Sub.Sents...)
	case 2:
		b.Sub.Sents = append([]*Sentence{Cmd("tick", Lit(g.label()))}, b.Sub.Sents...)
	}
	return b
}

// spec writes an argument specification.
func (g *G) spec(s *gs) (spec *Word, info cmdInfo, params []string) {
	var ws []*Word
	info.kind = "call"
	names := []string{"x", "y", "z"}
	n := g.N(4)
	if g.N(4) == 3 {
		// options first
		switch g.N(3) {
		case 0:
			ws = append(ws, Lit("?-f?"), Lit("?fl"))
			info.opts = append(info.opts, "?-f")
			params = append(params, "fl")
		case 1:
			ws = append(ws, Lit("-o"), Tup(Lit("?op"), lit("%d", g.N(5))))
			info.opts = append(info.opts, "-o")
			params = append(params, "op")
		default:
			ws = append(ws, Tup(Lit("-p"), Lit("-q")), Tup(Lit("?oq"), Lit("7")))
			info.opts = append(info.opts, "-q")
			params = append(params, "oq")
		}
		if info.opts[0] == "?-f" {
			ws[0] = Lit("?-f")
			ws[1] = Lit("?fl")
		}
	}
	rem := false
	for i := 0; i < n && i < 3; i++ {
		p := names[i]
		switch g.N(8) {
		case 0, 1, 2:
			ws = append(ws, Lit(p))
			info.min++
		case 3:
			ws = append(ws, Tup(Lit("?"+p), lit("%d", g.N(10))))
		case 4:
			ws = append(ws, Tup(Lit("?"+p), BlkC(Cmd("emit", Lit(g.label())), Cmd("idem", lit("%d", g.N(10))))))
		case 5:
			if !rem {
				rem = true
				ws = append(ws, Lit("*"+p))
				info.max++
				params = append(params, p)
				continue
			}
			ws = append(ws, Lit(p))
			info.min++
		case 6:
			ws = append(ws, Tup(Lit(pick(g, []string{"idem", "list", "int", "emit"})), Lit(p)))
			info.min++
		default:
			ws = append(ws, Tup(Tup(Lit("tick"), Lit(g.label())), Lit("?"+p), lit("%d", g.N(10))))
		}
		params = append(params, p)
		info.max++
	}
	if info.max < info.min {
		info.max = info.min
	}
	return Tup(ws...), info, params
}

// extend adds a subcommand to an ensemble of the language and calls it.
func (g *G) extend(s *gs) []*Sentence {
	n, ens := g.fresh("sub"), pick(g, []string{"list", "dict", "string", "tuple", "script", "argspec", "int", "real", "boolean"})
	out := []*Sentence{}
	var arg *Word
	add := func(c *Sentence) { out = append(out, Sen(ExprC(ens), Lit("eval"), BlkC(c))) }
	call := func(ws ...*Word) *Sentence { return Cmd(ens, append([]*Word{arg, Lit(n)}, ws...)...) }
	switch ens {
	case "int", "real":
		arg = g.Num(s, 1)
	case "boolean":
		arg = Lit(pick(g, []string{"true", "false"}))
	default:
		arg = g.Any(s, 1)
	}
	var c *Sentence
	switch g.N(6) {
	case 0, 1:
		if ens != "boolean" {
			arg = lit("%d", 1+g.N(3))
		}
		add(Cmd("alias", Lit(n), Lit("steps")))
		c = call()
	case 2:
		add(Cmd("alias", Lit(n), Tup(Lit("tick"), Lit(g.label()))))
		c = call()
	case 3:
		add(Cmd("alias", Lit(n), Lit("yield")))
		c = call()
	default:
		add(Cmd(pick(g, []string{"macro", "closure", "proc"}), Lit(n), Tup(Lit("v"), Lit("?x")),
			BlkC(Cmd("emit", Lit(g.label()), Var("v"), ExprC("get", Lit("x"), Lit("none"))), Cmd("tick", Lit(g.label()), Var("v")))))
		c = call()
		if g.Is(2) {
			c = call(g.Any(s, 1))
		}
	}
	g.uses["extended "+ens]++
	if g.Is(2) {
		return append(out, Cmd("emit", Lit(g.label()), Expr(Scr(c))))
	}
	return append(out, c)
}

// def defines a command.
func (g *G) def(s *gs) *Sentence {
	kind := pick(g, []string{"proc", "closure", "macro"})
	n := g.fresh("f")
	spec, info, params := g.spec(s)
	info.name = n
	var sub *gs
	if kind == "proc" {
		sub = &gs{num: append([]string{}, params...), fn: true, depth: s.depth + 1, own: true, cmds: s.clone().cmds}
	} else {
		sub = s.local(s, params...)
		sub.fn = true
		if kind == "macro" {
			// called from anywhere: only its own parameters are certain
			sub = &gs{num: append([]string{}, params...), locals: params, fn: true, depth: s.depth + 1, cmds: s.clone().cmds}
			if !s.own {
				sub.num = append(sub.num, "a", "b", "c")
			}
		} else {
			sub.num = append(sub.num, params...)
		}
	}
	sub.loop = false
	b := g.Block(sub)
	var body *Word = b
	if g.Is(6) {
		body = Tup(pick(g, []*Word{Lit("idem"), Lit("list"), Tup(Lit("tick"), Lit(g.label())), g.prying(params), g.prying(params)}), b)
	}
	if len(params) > 0 && g.N(16) == 15 {
		// a guard called with the name of a parameter
		b.Sub.Sents = append(b.Sub.Sents, Cmd("idem", Lit(pick(g, params))))
		body = Tup(Lit("exists"), b)
	}
	if g.slip() {
		body = Lit("nobody")
	}
	out := Cmd(kind, Lit(n), spec, body)
	s.cmds = append(s.cmds, info)
	return out
}

// prying is a command for guards that looks for the names of others.
func (g *G) prying(names []string) *Word {
	ws := []*Word{Lit(g.label())}
	for _, n := range append([]string{"v"}, names...) {
		ws = append(ws, ExprC("exists", Lit(n)), ExprC("get", Lit(n), Lit("none")))
	}
	return Expr(Scr(Sen(ExprC(pick(g, []string{"macro", "macro", "closure", "proc"}), Tup(Lit("v")), BlkC(Cmd("emit", ws...), Cmd("idem", Var("v")))))))
}

// aliasDef defines an alias of a command that may suspend.
func (g *G) aliasDef(c *[]cmdInfo) *Sentence {
	m := g.fresh("m")
	i := cmdInfo{name: m, kind: "call"}
	w := Tup(Lit("tick"), Lit(g.label()))
	switch g.N(3) {
	case 0:
		w = Tup(Lit("steps"), lit("%d", 1+g.N(3)))
	case 1:
		w = Lit("tick")
		i.min, i.max = 1, 1
	}
	*c = append(*c, i)
	return Cmd("alias", Lit(m), w)
}

func (g *G) scopeDef(s *gs) []*Sentence {
	n := g.fresh("sc")
	sub := s2(s)
	b := g.Body(sub, 1+g.N(2))
	inner := newCmds(sub, s)
	if g.Is(3) {
		b.Sents = append(b.Sents, g.aliasDef(&inner))
	}
	s.cmds = append(s.cmds, cmdInfo{name: n, kind: "scope", subs: inner})
	b.Sents = append([]*Sentence{Cmd("set", Lit("q"), g.Num(s2(s), 2))}, b.Sents...)
	sub.num = append(sub.num, "q")
	return one(g.used(s, Cmd("scope", Lit(n), Blk(b))))
}

// s2 is a place where nothing of s is visible.
func s2(s *gs) *gs { return &gs{depth: s.depth + 1, own: true, cmds: s.clone().cmds} }

func newCmds(sub, s *gs) []cmdInfo {
	out := []cmdInfo{}
	for _, c := range sub.cmds[len(s.cmds):] {
		if c.kind == "call" {
			out = append(out, c)
		}
	}
	return out
}
func (g *G) namespaceDef(s *gs) []*Sentence {
	n := g.fresh("ns")
	sub := s2(s)
	b := &Script{Sents: []*Sentence{Cmd("set", Lit("q"), lit("%d", g.N(9)))}}
	sub.num = append(sub.num, "q")
	for i := 0; i <= g.N(2); i++ {
		b.Sents = append(b.Sents, g.def(sub))
	}
	b.Sents = append(b.Sents, g.Body(sub, g.N(2)).Sents...)
	inner := newCmds(sub, s)
	if g.Is(3) {
		b.Sents = append(b.Sents, g.aliasDef(&inner))
	}
	s.cmds = append(s.cmds, cmdInfo{name: n, kind: "namespace", subs: inner})
	return one(g.used(s, Cmd("namespace", Lit(n), Blk(b))))
}
func (g *G) ensembleDef(s *gs) []*Sentence {
	n := g.fresh("en")
	sub := s2(s)
	b := &Script{}
	arg := pick(g, []*Word{Tup(Lit("x")), Tup(Lit("x"), Lit("y")), Tup(Tup(Lit("list"), Lit("x"))), Tup(Tup(Tup(Lit("tick"), Lit(g.label())), Lit("x")))})
	k := len(arg.Sub.Sents[0].Words)
	var inner []cmdInfo
	for i := 0; i <= g.N(2); i++ {
		m := g.fresh("m")
		ps := []*Word{Lit("x")}
		names := []string{"x"}
		if k == 2 {
			ps = append(ps, Lit("y"))
			names = append(names, "y")
		}
		extra := g.N(2)
		if extra == 1 {
			ps = append(ps, Lit("z"))
			names = append(names, "z")
		}
		body := s2(s)
		body.num, body.depth, body.fn = names, s.depth+2, true
		b.Sents = append(b.Sents, Cmd(pick(g, []string{"proc", "closure"}), Lit(m), Tup(ps...), g.Block(body)))
		inner = append(inner, cmdInfo{name: m, kind: "call", min: extra, max: extra})
	}
	b.Sents = append(b.Sents, g.Body(sub, g.N(2)).Sents...)
	if k == 1 && g.Is(3) {
		m := g.fresh("m")
		b.Sents = append(b.Sents, Cmd("alias", Lit(m), pick(g, []*Word{Lit("tick"), Lit("steps"), Tup(Lit("tick"), Lit(g.label()))})))
		inner = append(inner, cmdInfo{name: m, kind: "call"})
	}
	s.cmds = append(s.cmds, cmdInfo{name: n, kind: "ensemble", min: k, subs: inner})
	return one(g.used(s, Cmd("ensemble", Lit(n), arg, Blk(b))))
}

// subCall uses a scope, namespace or ensemble defined before.
func (g *G) subCall(s *gs) []*Sentence {
	c := []cmdInfo{}
	for _, x := range s.cmds {
		if x.kind != "call" {
			c = append(c, x)
		}
	}
	if len(c) == 0 {
		return nil
	}
	return g.subCallOf(s, pick(g, c))
}
func (g *G) subCallOf(s *gs, x cmdInfo) []*Sentence {
	args := func(i cmdInfo) []*Word { return g.callOf(s, 2, i, nil).Words[1:] }
	var t *Sentence
	switch x.kind {
	case "scope":
		if len(x.subs) > 0 && g.Is(2) {
			i := pick(g, x.subs)
			t = Cmd(x.name, append([]*Word{Lit("call"), Lit(i.name)}, args(i)...)...)
		} else {
			sub := s2(s)
			sub.num = []string{"q"}
			t = Cmd(x.name, Lit("eval"), g.Block(sub))
		}
	case "namespace":
		if len(x.subs) == 0 {
			return nil
		}
		i := pick(g, x.subs)
		switch g.N(5) {
		case 0, 1, 2:
			t = Cmd(x.name, append([]*Word{Lit(i.name)}, args(i)...)...)
		case 3:
			t = Sen(append([]*Word{ExprC(x.name), Lit("call"), Lit(i.name)}, args(i)...)...)
		default:
			al := g.fresh("im")
			t = Sen(ExprC(x.name), Lit("import"), Lit(i.name), Lit(al))
			s.cmds = append(s.cmds, cmdInfo{name: al, kind: "call", min: i.min, max: i.max, opts: i.opts})
			return one(t)
		}
	case "ensemble":
		var ws []*Word
		for i := 0; i < x.min; i++ {
			ws = append(ws, g.Num(s, 2))
		}
		if g.Is(5) || len(x.subs) == 0 {
			t = Cmd(x.name, ws...)
		} else {
			i := pick(g, x.subs)
			t = Cmd(x.name, append(append(ws, Lit(i.name)), args(i)...)...)
		}
	}
	return one(g.used(s, t))
}
