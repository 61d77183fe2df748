package model

import "strings"

type ArgKind int

const (
	Req ArgKind = iota
	OptArg
	Rem
)

type Arg struct {
	Name  string
	Kind  ArgKind
	Def   Value
	Guard Value
	Opt   []string // option names
	Flag  bool
}
type Argspec struct {
	Args   []Arg
	nreq   int
	nopt   int
	hasRem bool
	hasOpt bool
}

// parseSpec reads a specification: positional parameters, and options, each
// followed by the parameter it sets.
func parseSpec(v Value) (*Argspec, Res) {
	if s, is := v.(SpecV); is {
		return s.A, ok(Nil{})
	}
	vs, r := array(v)
	if r.Code != OK {
		return nil, fail("invalid argument list")
	}
	a := &Argspec{}
	params, options := map[string]bool{}, map[string]bool{}
	var opt []string
	var flag bool
	for _, x := range vs {
		names, f, r := optNames(x)
		if r.Code != OK {
			return nil, r
		}
		if len(names) > 0 {
			if a.hasRem {
				return nil, fail("cannot use remainder argument before options")
			}
			for _, n := range names {
				if options[n] {
					return nil, fail(`duplicate option "` + n + `"`)
				}
				options[n] = true
			}
			opt, flag = names, f
			continue
		}
		g, r := parseParam(x)
		if r.Code != OK {
			return nil, r
		}
		if g.Kind == Rem && a.hasRem {
			return nil, fail("only one remainder argument is allowed")
		}
		if opt != nil {
			if flag && g.Kind != OptArg {
				return nil, fail(`argument for flag "` + strings.Join(opt, "|") + `" must be optional`)
			}
			if g.Kind == Rem {
				return nil, fail(`argument for option "` + strings.Join(opt, "|") + `" cannot be a remainder`)
			}
			g.Opt, g.Flag = opt, flag
			opt = nil
		}
		if params[g.Name] {
			return nil, fail(`duplicate argument "` + g.Name + `"`)
		}
		params[g.Name] = true
		a.Args = append(a.Args, g)
		switch {
		case g.Opt != nil:
			a.hasOpt = true
			if g.Kind == Req {
				a.nreq += 2
			}
		case g.Kind == Req:
			a.nreq++
		case g.Kind == OptArg:
			a.nopt++
		default:
			a.hasRem = true
		}
	}
	if opt != nil {
		return nil, fail(`missing argument for option "` + strings.Join(opt, "|") + `"`)
	}
	return a, ok(Nil{})
}

// parseParam reads name, ?name, *name, (guard name), (?name default) or (guard
// ?name default).
func parseParam(x Value) (g Arg, r Res) {
	named := func(v Value) Res {
		s, is := toStr(v)
		switch {
		case !is:
			return fail("invalid argument name")
		case s == "" || s == "?":
			return fail("empty argument name")
		case s[0] == '?':
			g.Name, g.Kind = s[1:], OptArg
		default:
			g.Name = s
		}
		return ok(Nil{})
	}
	switch x.(type) {
	case Tuple, Block, List:
	default:
		if r := named(x); r.Code != OK {
			return g, r
		}
		if strings.HasPrefix(g.Name, "*") && g.Kind == Req {
			g.Kind = Rem
			if g.Name != "*" {
				g.Name = g.Name[1:]
			}
		}
		return g, ok(Nil{})
	}
	vs, r := array(x)
	if r.Code != OK {
		return g, r
	}
	switch len(vs) {
	case 0:
		return g, fail("empty argument specifier")
	case 1:
		return g, named(vs[0])
	case 2:
		s0, is0 := toStr(vs[0])
		_, is1 := toStr(vs[1])
		if !is0 && !is1 {
			return g, fail("invalid argument name")
		}
		if is0 && len(s0) > 1 && s0[0] == '?' {
			g.Def = vs[1]
			return g, named(vs[0])
		}
		if !is1 {
			return g, fail("empty argument name")
		}
		g.Guard = vs[0]
		return g, named(vs[1])
	case 3:
		if r := named(vs[1]); r.Code != OK {
			return g, r
		}
		if g.Kind != OptArg {
			return g, fail(`default argument "` + g.Name + `" must be optional`)
		}
		g.Guard, g.Def = vs[0], vs[2]
		return g, ok(Nil{})
	}
	s, is := toStr(vs[0])
	if !is {
		return g, fail("invalid argument name")
	}
	return g, fail(`too many specifiers for argument "` + s + `"`)
}

// optNames gives the names of an option (-name) or flag (?-name), with its
// aliases; none if it is not an option.
func optNames(v Value) (names []string, flag bool, r Res) {
	vs := []Value{v}
	switch v.(type) {
	case Tuple, List, Block:
		if vs, r = array(v); r.Code != OK {
			return nil, false, r
		}
	}
	for i, x := range vs {
		s, is := toStr(x)
		if !is {
			break
		}
		f := strings.HasPrefix(s, "?-")
		n := strings.TrimPrefix(s, "?")
		if !strings.HasPrefix(n, "-") || len(n) < 2 {
			break
		}
		if n == "--" {
			return nil, false, fail("cannot use option terminator as option name")
		}
		if i > 0 && f != flag {
			break
		}
		flag = f
		names = append(names, n)
	}
	if len(names) > 0 && len(names) < len(vs) {
		return nil, false, fail(`incompatible aliases for option "` + strings.Join(names, "|") + `"`)
	}
	return names, flag, ok(Nil{})
}
func (a *Argspec) usage() string {
	p := []string{}
	for _, g := range a.Args {
		switch {
		case g.Opt != nil && g.Flag:
			p = append(p, "?"+strings.Join(g.Opt, "|")+"?")
		case g.Opt != nil && g.Kind == Req:
			p = append(p, strings.Join(g.Opt, "|")+" "+g.Name)
		case g.Opt != nil:
			p = append(p, "?"+strings.Join(g.Opt, "|")+" "+g.Name+"?")
		case g.Kind == Req:
			p = append(p, g.Name)
		case g.Kind == OptArg:
			p = append(p, "?"+g.Name+"?")
		case g.Name == "*":
			p = append(p, "?arg ...?")
		default:
			p = append(p, "?"+g.Name+" ...?")
		}
	}
	return strings.Join(p, " ")
}
func (a *Argspec) sig(name Value, def string) string {
	s, is := toStr(name)
	if !is {
		s = def
	}
	if u := a.usage(); u != "" {
		s += " " + u
	}
	return s
}
func (a *Argspec) arityOK(n int) bool {
	if a.hasOpt {
		return n >= a.nreq
	}
	return n >= a.nreq && (a.hasRem || n <= a.nreq+a.nopt)
}

// bind assigns arguments to parameters. Guards and defaults run in sc.
// The assignment is decided first, as a whole, from the specification: runs of
// positional parameters and of options take arguments in turn.
func (a *Argspec) bind(e *Ev, sc *Scope, args []Value) (map[string]Value, Res) {
	given := make([]Value, len(a.Args))
	has := make([]bool, len(a.Args))
	rest := args
	// what is still to be given
	missing := func() (req, opt int) {
		for k, g := range a.Args {
			switch {
			case has[k]:
			case g.Kind == Req && g.Opt != nil:
				req += 2
			case g.Kind == Req:
				req++
			case g.Kind == OptArg && g.Opt == nil:
				opt++
			}
		}
		return
	}
	for k := 0; k < len(a.Args) && len(rest) > 0; {
		for ; k < len(a.Args) && a.Args[k].Opt == nil && len(rest) > 0; k++ {
			req, opt := missing()
			n := 1
			switch a.Args[k].Kind {
			case OptArg:
				if len(rest) <= req {
					continue
				}
			case Rem:
				if n = len(rest) - req - opt; n < 0 {
					n = 0
				}
				given[k] = Tuple{append([]Value{}, rest[:n]...)}
			}
			if a.Args[k].Kind != Rem {
				given[k] = rest[0]
			}
			has[k], rest = true, rest[n:]
		}
		if len(rest) == 0 {
			break
		}
		end, needed := k, 0
		for ; end < len(a.Args) && a.Args[end].Opt != nil; end++ {
			if a.Args[end].Kind == Req {
				needed++
			}
		}
		for left := end - k; left > 0 && len(rest) > 0; left-- {
			s, is := toStr(rest[0])
			o := -1
			for j, g := range a.Args {
				for _, n := range g.Opt {
					if n == s {
						o = j
					}
				}
			}
			if !is || s == "--" || o < 0 {
				if needed == 0 {
					break
				}
				switch {
				case !is:
					return nil, fail("invalid option")
				case s == "--":
					return nil, fail("unexpected option terminator")
				}
				return nil, fail(`unknown option "` + s + `"`)
			}
			if o < k || o >= end {
				return nil, fail(`unexpected option "` + s + `"`)
			}
			g := a.Args[o]
			if has[o] {
				return nil, fail(`duplicate values for option "` + strings.Join(g.Opt, "|") + `"`)
			}
			has[o] = true
			if g.Flag {
				given[o] = Bool(true)
				rest = rest[1:]
				continue
			}
			if len(rest) < 2 {
				return nil, fail(`missing value for option "` + strings.Join(g.Opt, "|") + `"`)
			}
			given[o] = rest[1]
			rest = rest[2:]
			if g.Kind == Req {
				needed--
			}
		}
		if a.hasOpt && len(rest) > 0 {
			if s, is := toStr(rest[0]); is && s == "--" {
				rest = rest[1:]
			}
		}
		k = end
	}
	for k, g := range a.Args {
		if g.Kind == Rem && !has[k] {
			given[k], has[k] = Tuple{}, true
		}
	}
	if len(rest) > 0 && a.hasOpt {
		return nil, fail("extra values after arguments")
	}
	out := map[string]Value{}
	for k, g := range a.Args {
		out[g.Name] = nil
		v := given[k]
		if !has[k] {
			switch {
			case g.Kind == Req && g.Opt != nil:
				return nil, fail(`missing value for option "` + strings.Join(g.Opt, "|") + `"`)
			case g.Kind == Req:
				return nil, fail(`missing value for argument "` + g.Name + `"`)
			case g.Flag:
				v = Bool(false)
			case g.Def != nil:
				if b, is := g.Def.(Block); is {
					r := e.isolatedValue(sc, func(e *Ev) Res { return e.run(b.S) })
					if r.Code != OK {
						return nil, r
					}
					v = r.V
				} else {
					v = g.Def
				}
			default:
				continue
			}
		}
		if g.Guard != nil {
			r := e.isolatedValue(sc, func(e *Ev) Res { return e.call([]Value{g.Guard, v}) })
			if r.Code != OK {
				return nil, r
			}
			v = r.V
		}
		out[g.Name] = v
	}
	return out, ok(Nil{})
}
