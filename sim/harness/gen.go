package main

import (
	"fmt"
	. "helena/verifsim/model"
)

// G writes programs: trees for the model, rendered to text for the real
// interpreter. Programs mostly make sense; errors come from fault points, from
// values of the wrong kind delivered at suspensions, and from deliberate slips.
type G struct {
	r           *Run
	w           map[string]int // weights of statement kinds
	tickW       int            // how often an expression is wrapped in a fault point (per 16)
	labels      int
	vars        int
	budget      int
	fuel        int // expressions left to this statement
	Slip        int // one deliberate mistake in so many places (0: never)
	NoDictOrder bool
	table       []stmtKind
	total       int
	uses        map[string]int64
	shared      *[]cmdInfo // commands several activities call
}
type cmdInfo struct {
	name     string
	kind     string // call, scope, namespace, ensemble, coroutine var
	min, max int
	subs     []cmdInfo
	opts     []string
	cond     bool // created in a place that may not be reached
}

// gs is what is visible at a place of the program.
type gs struct {
	num, str, lst, dct, tup []string
	co                      []string
	any                     []string // of unknown kind
	cmds                    []cmdInfo
	locals                  []string // never assigned by set
	loop                    bool
	fn                      bool
	depth                   int
	order                   bool // inside an iteration of an unordered collection
	own                     bool // in a context of its own (not the root's)
}

func (s *gs) clone() *gs {
	c := *s
	c.num = append([]string{}, s.num...)
	c.str = append([]string{}, s.str...)
	c.lst = append([]string{}, s.lst...)
	c.dct = append([]string{}, s.dct...)
	c.tup = append([]string{}, s.tup...)
	c.co = append([]string{}, s.co...)
	c.locals = append([]string{}, s.locals...)
	c.any = append([]string{}, s.any...)
	c.cmds = append([]cmdInfo{}, s.cmds...)
	return &c
}

// sub is the place of a nested script in the same scope.
func (s *gs) sub() *gs { c := s.clone(); c.depth++; return c }

// local is the place of a body with local parameters in the same context.
func (s *gs) local(root *gs, params ...string) *gs {
	c := s.sub()
	// parameters of the surrounding local scope are not visible
	drop := func(v []string) []string {
		out := []string{}
		for _, n := range v {
			keep := true
			for _, l := range s.locals {
				if l == n {
					keep = false
				}
			}
			for _, l := range params {
				if l == n {
					keep = false
				}
			}
			if keep {
				out = append(out, n)
			}
		}
		return out
	}
	c.num, c.str, c.lst, c.dct, c.tup, c.co, c.any = drop(c.num), drop(c.str), drop(c.lst), drop(c.dct), drop(c.tup), drop(c.co), drop(c.any)
	c.locals = params
	return c
}

type stmtKind struct {
	name string
	w    int
	f    func(g *G, s *gs) []*Sentence
}

func NewG(r *Run, weights map[string]int) *G {
	g := &G{r: r, w: weights, tickW: 3, budget: 60, uses: map[string]int64{}}
	for _, k := range stmtKinds {
		w := k.w
		if x, is := weights[k.name]; is {
			w = x
		}
		if w > 0 {
			k.w = w
			g.table = append(g.table, k)
			g.total += w
		}
	}
	return g
}

func (g *G) N(n int) int   { return g.r.N(n) }
func (g *G) Is(n int) bool { return g.r.Is(n) }

// deep ends the nesting of expressions.
func (g *G) deep(depth int) bool { g.fuel--; return depth > 3 || g.fuel < 0 }
func (g *G) slip() bool          { return g.Slip > 0 && g.r.Is(g.Slip) }
func (g *G) label() string       { g.labels++; return fmt.Sprintf("L%d", g.labels) }
func (g *G) fresh(p string) string {
	g.vars++
	return fmt.Sprintf("%s%d", p, g.vars)
}
func pick[T any](g *G, v []T) T    { return v[g.N(len(v))] }
func lit(f string, a ...any) *Word { return Lit(fmt.Sprintf(f, a...)) }

// place of the root scope after the prelude
func rootPlace() *gs {
	return &gs{num: []string{"a", "b", "c"}, str: []string{"s", "t"}, lst: []string{"l", "m"},
		dct: []string{"d", "e"}, tup: []string{"u", "v"}}
}

// Prelude gives every variable of the root place a value.
func Prelude() *Script {
	num := func(n string, v string) *Sentence { return Cmd("set", Lit(n), Lit(v)) }
	return Scr(num("a", "1"), num("b", "2"), num("c", "3"), num("s", "foo"), num("t", "ba"),
		Cmd("set", Lit("l"), ExprC("list", Tup(Lit("4"), Lit("5"), Lit("6")))),
		Cmd("set", Lit("m"), ExprC("list", Tup(Lit("7"), Lit("x")))),
		Cmd("set", Lit("d"), ExprC("dict", Tup(Lit("p"), Lit("8"), Lit("q"), Lit("9")))),
		Cmd("set", Lit("e"), ExprC("dict", Tup(Lit("r"), Lit("y"), Lit("p"), Lit("z"), Lit("o"), Lit("3")))),
		Cmd("set", Lit("u"), Tup(Lit("1"), Lit("w"))),
		Cmd("set", Lit("v"), Tup(Lit("k"), Tup(Lit("2"), Lit("h")))))
}

// Body gives a script of about n statements.
func (g *G) Body(s *gs, n int) *Script {
	sc := &Script{}
	for i := 0; i < n && g.budget > 0; i++ {
		sc.Sents = append(sc.Sents, g.Stmt(s)...)
	}
	return sc
}

// begins looks at the last result where nothing has been evaluated yet.
func (g *G) begins() []*Sentence {
	g.uses["last result at the start of a script"]++
	switch g.N(4) {
	case 0:
		return one(Cmd("emit", Lit(g.label()), ExprC("^")))
	case 1:
		return one(Cmd("|>", Lit("emit"), Lit(g.label())))
	case 2:
		return []*Sentence{Cmd("^"), Cmd("|>", Lit("emit"), Lit(g.label()))}
	default:
		return []*Sentence{Cmd("|>", Lit("idem")), Cmd("emit", Lit(g.label()), ExprC("^"), Expr(Scr(Cmd("|>", Lit("idem")))))}
	}
}

// Blk is a body as a word; it ends with an expression statement half the time.
func (g *G) Block(s *gs) *Word {
	n := 1 + g.N(3)
	if s.depth > 3 {
		n = 1
	}
	b := g.Body(s, n)
	if g.N(3) == 2 || len(b.Sents) == 0 {
		b.Sents = append(b.Sents, Cmd("idem", g.Any(s, s.depth+1)))
	}
	if g.N(20) == 0 {
		b.Sents = append(g.begins(), b.Sents...)
	}
	w := Blk(b)
	w.Multi = true
	return w
}

func (g *G) Stmt(s *gs) []*Sentence {
	g.budget--
	saved := g.fuel
	g.fuel = 9
	defer func() { g.fuel = saved }()
	for try := 0; ; try++ {
		k := g.N(g.total)
		for _, t := range g.table {
			if k < t.w {
				if s.depth > 4 && len(t.name) > 0 && t.name[0] == '*' {
					break
				}
				if out := t.f(g, s); out != nil {
					g.uses[t.name]++
					if g.N(14) == 0 {
						out = g.via(s, out)
					}
					return out
				}
				break
			}
			k -= t.w
		}
		if try > 6 {
			return []*Sentence{Cmd("emit", Lit(g.label()))}
		}
	}
}

// via calls the last command of a list of statements another way.
func (g *G) via(s *gs, out []*Sentence) []*Sentence {
	last := out[len(out)-1]
	if len(last.Words) == 0 || last.Words[0].Kind != WLit || last.Words[0].Text == "^" || last.Words[0].Text == "|>" {
		return out
	}
	g.uses["command called through a prefix, an alias or a variable"]++
	ws := last.Words
	k := 1 + g.N(min(len(ws), 3))
	t := func(pre ...*Word) *Sentence { return Sen(append(pre, ws[k:]...)...) }
	rest := out[: len(out)-1 : len(out)-1]
	switch g.N(8) {
	case 0, 1:
		return append(rest, t(Tup(ws[:k]...)))
	case 6, 7:
		// a subcommand of an ensemble
		n, m := g.fresh("en"), g.fresh("m")
		if g.Is(3) || len(ws) < 2 || ws[1].Expand {
			return append(rest, Cmd("ensemble", Lit(n), Tup(), BlkC(Cmd("alias", Lit(m), ws[0]))), Sen(append([]*Word{Lit(n), Lit(m)}, ws[1:]...)...))
		}
		return append(rest, Cmd("ensemble", Lit(n), Tup(Lit("x")), BlkC(Cmd("alias", Lit(m), Tup(ws[0])))), Sen(append([]*Word{Lit(n), ws[1], Lit(m)}, ws[2:]...)...))
	case 2:
		return append(rest, t(Tup(append([]*Word{Tup(ws[0])}, ws[1:k]...)...)))
	case 3:
		n := g.fresh("al")
		return append(rest, Cmd("alias", Lit(n), Tup(ws[:k]...)), t(Lit(n)))
	case 4:
		n := g.fresh("pr")
		return append(rest, Cmd("set", Lit(n), Tup(ws[:k]...)), t(Var(n)))
	default:
		k = 1
		n := g.fresh("pr")
		return append(rest, Cmd("set", Lit(n), ws[0]), t(Var(n)))
	}
}

// wrap may put an expression behind a fault point or another construct that
// evaluates it in place.
func (g *G) wrap(s *gs, depth int, e *Word) *Word {
	if g.N(16) >= g.tickW || depth > 4 || g.fuel <= 0 {
		return e
	}
	switch g.N(14) {
	case 0, 1, 2, 3, 4, 5:
		return ExprC("tick", Lit(g.label()), e)
	case 12:
		return Expr(Scr(Sen(Tup(Lit("tick"), Lit(g.label())), e)))
	case 13:
		return Expr(Scr(Sen(Tup(Tup(Lit("tick")), Lit(g.label())), e)))
	case 6:
		return ExprC("idem", e)
	case 7:
		return ExprC("eval", BlkC(Cmd("emit", Lit(g.label())), Cmd("idem", e)))
	case 8:
		return ExprC("if", g.Cond(s, depth+1), BlkC(Cmd("idem", e)), Lit("else"), BlkC(Cmd("tick", Lit(g.label()), e)))
	case 9:
		return Expr(Scr(Cmd("emit", Lit(g.label())), Cmd("idem", e)))
	case 10:
		return ExprC("tick", Lit(g.label()), ExprC("tick", Lit(g.label()), e))
	case 11:
		return ExprC("catch", BlkC(Cmd("tick", Lit(g.label()), e)), Lit("error"), Lit("x"), BlkC(Cmd("emit", Var("x")), Cmd("idem", Lit("0"))))
	}
	return e
}

func (g *G) Num(s *gs, depth int) *Word { return g.wrap(s, depth, g.num(s, depth)) }
func (g *G) num(s *gs, depth int) *Word {
	if g.slip() {
		return pick(g, []*Word{Lit("foo"), Var("nosuch"), Str(), Tup(Lit("1")), ExprC("nocmd", Lit("1"))})
	}
	n := 12
	if g.deep(depth) {
		n = 4
	}
	switch g.N(n) {
	case 0, 1:
		return lit("%d", g.N(10))
	case 2, 3:
		if len(s.num) > 0 {
			switch n := pick(g, s.num); g.N(12) {
			case 10:
				w := Var(n)
				w.Brace = true
				return w
			case 11:
				return g.named(s, n)
			default:
				return Var(n)
			}
		}
		return lit("%d", g.N(10))
	case 4:
		return ExprC(pick(g, []string{"+", "-", "*"}), g.Num(s, depth+1), g.Num(s, depth+1))
	case 5:
		return Expr(Scr(Sen(g.Num(s, depth+1), Lit(pick(g, []string{"+", "-", "*"})), g.Num(s, depth+1))))
	case 6:
		return ExprC("list", g.List(s, depth+1), Lit("length"))
	case 7:
		if len(s.dct) > 0 {
			return ExprC("dict", g.Dict(s, depth+1), Lit("size"))
		}
		return ExprC("string", g.Str(s, depth+1), Lit("length"))
	case 8:
		if c := g.call(s, depth+1); c != nil {
			return Expr(Scr(c))
		}
		return ExprC("if", g.Cond(s, depth+1), BlkC(Cmd("idem", g.Num(s, depth+1))), Lit("else"), BlkC(Cmd("idem", g.Num(s, depth+1))))
	case 9:
		sub := s.sub()
		b := g.Body(sub, 1)
		b.Sents = append(b.Sents, Cmd("idem", g.Num(sub, depth+1)))
		return ExprC("eval", Blk(b))
	case 10:
		if len(s.lst) > 0 {
			w := Var(pick(g, s.lst))
			w.Sel = []Sel{{false, Scr(Cmd("idem", g.Num(s, depth+1)))}}
			return w
		}
		return ExprC("list", g.List(s, depth+1), Lit("at"), g.Num(s, depth+1), g.Num(s, depth+1))
	default:
		if len(s.co) > 0 {
			return Expr(Scr(g.coOp(s, depth+1)))
		}
		return ExprC("loop", Lit("i"), Lit("q"), g.List(s, depth+1), BlkC(Cmd("idem", Expr(Scr(Sen(Var("i"), Lit("+"), g.Num(s.local(s, "i", "q"), depth+1)))))))
	}
}

// named is a variable whose name is computed.
func (g *G) named(s *gs, n string) *Word {
	g.uses["variable whose name is computed"]++
	w := &Word{Kind: WExpr, Lev: 1}
	switch g.N(5) {
	case 0:
		w.Sub = Scr(Cmd("tick", Lit(g.label()), Lit(n)))
	case 1:
		w.Sub = Scr(Cmd("list", Tup(Lit("nosuch"), Lit(n))))
		w.Sel = []Sel{{false, Scr(Cmd("idem", lit("%d", 1+g.N(20)/19)))}}
	case 2:
		w.Sub = Scr(Cmd("dict", Tup(Lit("k"), Lit(n))))
		w.Sel = []Sel{{true, Scr(Sen(Lit("k")))}}
	case 3:
		w.Sub = Scr(Cmd("idem", Tup(Lit(n))))
		w.Expand = true
	default:
		w.Sub = Scr(Cmd("idem", Lit(n)))
	}
	return w
}

// inString is a substitution with selectors, as part of a string.
func (g *G) inString(s *gs, depth int) *Word {
	g.uses["substitution with selectors in a string"]++
	var w *Word
	switch k := g.N(6); {
	case k < 2 && len(s.lst) > 0:
		w = Var(pick(g, s.lst))
		w.Sel = []Sel{{false, Scr(Cmd("tick", Lit(g.label()), g.Num(s, depth+1)))}}
	case k < 4 && len(s.dct) > 0:
		w = Var(pick(g, s.dct))
		w.Sel = []Sel{{true, Scr(Sen(Lit(pick(g, []string{"p", "q", "r"}))))}}
	case k < 5:
		w = ExprC("dict", Tup(Lit("p"), ExprC("list", Tup(g.Num(s, depth+1), ExprC("list", BlkC(Sen(Lit("x"), Lit("y"))))))))
		w.Sel = []Sel{{true, Scr(Sen(Lit("p")))}, {false, Scr(Cmd("idem", Lit("0")))}}
		if g.Is(2) {
			w.Sel[1].Sub = Scr(Cmd("idem", Lit("1")))
			w.Sel = append(w.Sel, Sel{false, Scr(Cmd("idem", lit("%d", g.N(2))))})
		}
	default:
		if len(s.num) == 0 {
			return Lit("x")
		}
		n := pick(g, s.num)
		if g.Is(2) {
			w = g.named(s, n)
			w.Expand = false
			return w
		}
		w = Var(n)
		w.Brace = true
	}
	return w
}
func (g *G) Str(s *gs, depth int) *Word { return g.wrap(s, depth, g.str(s, depth)) }
func (g *G) str(s *gs, depth int) *Word {
	n := 9
	if g.deep(depth) {
		n = 3
	}
	switch g.N(n) {
	case 0:
		switch g.N(20) {
		case 18:
			return &Word{Kind: WHere, Text: pick(g, []string{"x", "a $b [c] (d", "{ ; #"})}
		case 19:
			return &Word{Kind: WTag, Text: pick(g, []string{"x", "a $b [c] (d\n\"\"\"", "{ ; #{"})}
		}
		return Lit(pick(g, []string{"x", "foo", "bar", "q"}))
	case 8:
		parts := []*Word{}
		for i := g.N(3); i >= 0; i-- {
			if g.Is(2) {
				parts = append(parts, Lit(pick(g, []string{"x ", "y", "-"})))
			}
			parts = append(parts, g.inString(s, depth+1))
		}
		if g.Is(2) {
			parts = append(parts, Lit("z"))
		}
		return Str(parts...)
	case 1, 2:
		if len(s.str) > 0 {
			return Var(pick(g, s.str))
		}
		return Lit("x")
	case 3:
		return Str(Lit("a "), Expr(Scr(Cmd("idem", g.Num(s, depth+1)))), Lit("-"), Expr(Scr(Cmd("idem", g.Str(s, depth+1)))))
	case 4:
		return Cmp(Lit("p"), Expr(Scr(Cmd("idem", g.Num(s, depth+1)))), Lit("q"), Expr(Scr(Cmd("idem", g.Num(s, depth+1)))), Lit("r"))
	case 5:
		return ExprC("string", g.Str(s, depth+1), Lit("append"), g.Str(s, depth+1), g.Num(s, depth+1))
	case 6:
		return Cmp(Expr(Scr(Cmd("idem", g.Num(s, depth+1)))), Lit("z"))
	default:
		return ExprC("if", g.Cond(s, depth+1), BlkC(Cmd("idem", g.Str(s, depth+1))), Lit("else"), BlkC(Cmd("idem", g.Str(s, depth+1))))
	}
}
func (g *G) List(s *gs, depth int) *Word { return g.wrap(s, depth, g.list(s, depth)) }
func (g *G) list(s *gs, depth int) *Word {
	n := 8
	if g.deep(depth) {
		n = 3
	}
	switch g.N(n) {
	case 0, 1:
		if len(s.lst) > 0 {
			return Var(pick(g, s.lst))
		}
		return ExprC("list", Tup(g.Num(s, depth+1), g.Num(s, depth+1)))
	case 2:
		return ExprC("list", Tup(g.Num(s, depth+1), g.Any(s, depth+1), g.Num(s, depth+1)))
	case 3:
		return ExprC("list", BlkC(Sen(Lit("1"), Lit("2"), Lit("3"))))
	case 4:
		return ExprC("list", g.List(s, depth+1), Lit("append"), g.List(s, depth+1))
	case 5:
		return ExprC("list", g.List(s, depth+1), Lit("range"), Lit("0"), g.Num(s, depth+1))
	case 6:
		switch g.N(3) {
		case 0:
			return ExprC("list", g.List(s, depth+1), Lit("insert"), Lit("1"), g.List(s, depth+1))
		case 1:
			return ExprC("list", g.List(s, depth+1), Lit("remove"), Lit("0"), Lit("0"))
		default:
			return ExprC("list", g.List(s, depth+1), Lit("replace"), Lit("0"), Lit("1"), g.List(s, depth+1))
		}
	default:
		if g.NoDictOrder || s.order {
			return ExprC("list", ExprC("dict", g.Dict(s, depth+1), Lit("keys")), Lit("sort"))
		}
		return ExprC("dict", g.Dict(s, depth+1), Lit(pick(g, []string{"keys", "values", "entries"})))
	}
}
func (g *G) Dict(s *gs, depth int) *Word { return g.wrap(s, depth, g.dict(s, depth)) }
func (g *G) dict(s *gs, depth int) *Word {
	n := 7
	if g.deep(depth) {
		n = 3
	}
	switch g.N(n) {
	case 0, 1:
		if len(s.dct) > 0 {
			return Var(pick(g, s.dct))
		}
		return ExprC("dict", Tup(Lit("p"), g.Num(s, depth+1)))
	case 2:
		return ExprC("dict", Tup(Lit("p"), g.Num(s, depth+1), Lit("x"), g.Any(s, depth+1)))
	case 3:
		return ExprC("dict", g.Dict(s, depth+1), Lit("add"), g.Str(s, depth+1), g.Num(s, depth+1))
	case 4:
		return ExprC("dict", g.Dict(s, depth+1), Lit("merge"), g.Dict(s, depth+1))
	case 5:
		return ExprC("dict", g.Dict(s, depth+1), Lit("remove"), Lit("p"))
	default:
		return ExprC("dict", Tup(Lit("r"), g.Str(s, depth+1)))
	}
}
func (g *G) Tuple(s *gs, depth int) *Word {
	switch g.N(4) {
	case 0:
		if len(s.tup) > 0 {
			return Var(pick(g, s.tup))
		}
		return Tup(g.Num(s, depth+1), g.Num(s, depth+1))
	case 1:
		return Tup(g.Num(s, depth+1), g.Str(s, depth+1))
	case 2:
		if !g.deep(depth + 1) {
			w := g.List(s, depth+1)
			if w.Kind == WExpr || w.Kind == WVar {
				_ = w
			}
			return Tup(g.Num(s, depth+1), Tup(g.Any(s, depth+1), g.Num(s, depth+1)))
		}
		return Tup(g.Num(s, depth+1), g.Num(s, depth+1))
	default:
		if len(s.lst) > 1 && g.N(4) == 3 {
			w := &Word{Kind: WTVar, Sub: Scr(Sen(Lit(s.lst[0]), Lit(pick(g, s.lst))))}
			if len(s.dct) > 0 && g.Is(2) {
				w.Sub.Sents[0].Words = []*Word{Lit(pick(g, s.dct)), Tup(Lit(pick(g, s.dct)))}
				w.Sel = []Sel{{true, Scr(Sen(Lit(pick(g, []string{"p", "q", "r"}))))}}
			} else {
				w.Sel = []Sel{{false, Scr(Cmd("idem", g.Num(s, depth+1)))}}
			}
			return w
		}
		if len(s.num) > 1 {
			if g.N(4) == 3 {
				return &Word{Kind: WTVar, Sub: Scr(Sen(Tup(Lit(s.num[0]), Lit(pick(g, s.num))), Lit(pick(g, s.num))))}
			}
			return &Word{Kind: WTVar, Sub: Scr(Sen(Lit(s.num[0]), Lit(pick(g, s.num))))}
		}
		return Tup(g.Num(s, depth+1), g.Num(s, depth+1))
	}
}
func (g *G) Any(s *gs, depth int) *Word {
	switch g.N(9) {
	case 0, 1, 2:
		return g.Num(s, depth)
	case 3, 4:
		return g.Str(s, depth)
	case 5:
		return g.List(s, depth)
	case 6:
		return g.Dict(s, depth)
	case 7:
		if len(s.any) > 0 {
			return Var(pick(g, s.any))
		}
		return g.Tuple(s, depth)
	default:
		if len(s.dct) > 0 && !g.deep(depth) {
			w := Var(pick(g, s.dct))
			w.Sel = []Sel{{true, Scr(Sen(Lit(pick(g, []string{"p", "q", "r"}))))}}
			return g.wrap(s, depth, w)
		}
		return g.Num(s, depth)
	}
}

// Cond is a condition: a boolean, or a script giving one.
func (g *G) Cond(s *gs, depth int) *Word {
	if g.slip() {
		return Lit("maybe")
	}
	cmp := func() *Sentence {
		return Sen(g.Num(s, depth+1), Lit(pick(g, []string{">", "<", "==", "!=", ">=", "<="})), g.Num(s, depth+1))
	}
	n := 8
	if g.deep(depth) {
		n = 3
	}
	switch g.N(n) {
	case 0:
		return Lit("true")
	case 1:
		return Lit("false")
	case 2, 3:
		return Expr(Scr(cmp()))
	case 4:
		return Blk(Scr(cmp()))
	case 5:
		return BlkC(Cmd("tick", Lit(g.label()), Lit(pick(g, []string{"true", "false"}))))
	case 6:
		return ExprC(pick(g, []string{"&&", "||"}), g.Cond(s, depth+1), g.Cond(s, depth+1), g.Cond(s, depth+1))
	default:
		return ExprC("!", g.Cond(s, depth+1))
	}
}

// call is a call of a command defined before.
func (g *G) call(s *gs, depth int) *Sentence {
	c := []cmdInfo{}
	for _, x := range s.cmds {
		if x.kind == "call" {
			c = append(c, x)
		}
	}
	if len(c) == 0 {
		return nil
	}
	return g.callOf(s, depth, pick(g, c), Lit)
}
func (g *G) callOf(s *gs, depth int, x cmdInfo, _ any) *Sentence {
	args := []*Word{}
	n := x.min
	if x.max > x.min {
		n += g.N(x.max - x.min + 1)
	}
	if g.slip() {
		n = g.N(x.max + 2)
	}
	for _, o := range x.opts {
		if g.N(2) == 1 {
			if o[0] == '?' {
				args = append(args, Lit(o[1:]))
			} else {
				args = append(args, Lit(o), g.Num(s, depth+1))
			}
		}
	}
	for i := 0; i < n; i++ {
		if g.N(16) == 15 {
			args = append(args, g.Any(s, depth+1))
		} else {
			args = append(args, g.Num(s, depth+1))
		}
	}
	g.uses["call of a defined command"]++
	return Cmd(x.name, args...)
}

func (g *G) coOp(s *gs, depth int) *Sentence {
	co := Var(pick(g, s.co))
	switch g.N(6) {
	case 0, 1:
		return Sen(co, Lit("wait"))
	case 2, 3:
		return Sen(co, Lit("yield"), g.Num(s, depth+1))
	case 4:
		return Sen(co, Lit(pick(g, []string{"active", "done"})))
	default:
		return Sen(co, Lit("yield"))
	}
}

// target is a variable to assign in this place.
func (g *G) target(v []string, s *gs) string {
	c := []string{}
	for _, n := range v {
		local := false
		for _, l := range s.locals {
			if l == n {
				local = true
			}
		}
		if !local {
			c = append(c, n)
		}
	}
	if len(c) == 0 {
		return ""
	}
	return pick(g, c)
}

func one(s *Sentence) []*Sentence { return []*Sentence{s} }
