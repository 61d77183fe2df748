package model

import "regexp"

// Native is a value only the commands of a native module understand.
type Native struct{ Re *regexp.Regexp }

// Machine is what native commands reach outside the interpreter.
type Machine interface {
	Data(path string) (string, string) // contents of a file, or error message
	Log(level, msg string)
}

// NewNative adds a native module under a name.
func (in *Interp) NewNative(name, kind string, mc Machine) {
	sc := &Scope{in, newCtx(nil), nil}
	f := func(e *Ev, a []Value) Res { return osCall(mc, a) }
	switch kind {
	case "slog":
		f = func(e *Ev, a []Value) Res { return slogCall(mc, a) }
	case "regexp":
		f = func(e *Ev, a []Value) Res { return regexpCall(a) }
	}
	sc.def(kind, f)
	if in.native == nil {
		in.native = map[string]*Command{}
	}
	in.native[name] = in.moduleCmd(&module{sc, map[string]bool{kind: true}})
}

// Load adds the command of the command line tool that registers native modules,
// and the ones it starts with.
func (in *Interp) Load(mc Machine) {
	kinds := map[string]string{"native/go_os": "os", "native/go_slog": "slog", "native/go_regexp": "regexp"}
	in.Root.def("load", func(e *Ev, a []Value) Res {
		if len(a) != 3 {
			return arity("load path name")
		}
		path, _ := toStr(a[1])
		name, _ := toStr(a[2])
		switch k := kinds[path]; {
		case path == "native/host":
			in.native[name] = in.host
		case k != "":
			in.NewNative(name, k, mc)
		default:
			return fail("native module " + path + " not found")
		}
		return ok(Nil{})
	})
	for _, k := range kinds {
		in.NewNative("go:"+k, k, mc)
	}
}

// Exit adds the command that ends the command line tool, which the model is
// only given with wrong arguments.
func (in *Interp) Exit() {
	in.Root.def("exit", func(e *Ev, a []Value) Res { return arity("exit") })
}
func methodOf(kind string, a []Value) (string, Res) {
	if len(a) < 2 {
		return "", arity(kind + " method ?arg ...?")
	}
	m, is := toStr(a[1])
	if !is {
		return "", fail("invalid method name")
	}
	return m, ok(Nil{})
}
func osCall(mc Machine, a []Value) Res {
	m, r := methodOf("os", a)
	if r.Code != OK {
		return r
	}
	if m != "ReadFile" {
		return fail("unsupported method " + m)
	}
	if len(a) < 3 {
		return arity("os ReadFile name")
	}
	d, msg := mc.Data(mustStr(a[2]))
	if msg != "" {
		return fail(msg)
	}
	return ok(String(d))
}
func slogCall(mc Machine, a []Value) Res {
	m, r := methodOf("slog", a)
	if r.Code != OK {
		return r
	}
	level := map[string]string{"Debug": "DEBUG", "Info": "INFO", "Warn": "WARN", "Error": "ERROR"}[m]
	if level == "" {
		return fail("unsupported method " + m)
	}
	if len(a) < 3 {
		return arity("slog " + m + " msg")
	}
	s, is := toStr(a[2])
	if !is {
		return fail("invalid message")
	}
	mc.Log(level, s)
	return ok(Nil{})
}

// operands of the functions of regular expressions
var reUsage = map[string][]string{
	"QuoteMeta": {"s"}, "Compile": {"expr"}, "CompilePOSIX": {"expr"},
	"FindAllString": {"re", "s", "n"}, "FindAllStringIndex": {"re", "s", "n"},
	"FindAllStringSubmatch": {"re", "s", "n"}, "FindAllStringSubmatchIndex": {"re", "s", "n"},
	"FindString": {"re", "s"}, "FindStringIndex": {"re", "s"},
	"FindStringSubmatch": {"re", "s"}, "FindStringSubmatchIndex": {"re", "s"},
	"LiteralPrefix": {"re"}, "Longest": {"re"}, "MatchString": {"re", "s"}, "NumSubexp": {"re"},
	"ReplaceAllLiteralString": {"re", "src", "repl"}, "ReplaceAllString": {"re", "src", "repl"},
	"Split": {"re", "s", "n"}, "String": {"re"}, "SubexpIndex": {"re", "s"}, "SubexpNames": {"re"},
}

// ReMethods are the functions of regular expressions and their operands.
func ReMethods() map[string][]string { return reUsage }

func regexpCall(a []Value) Res {
	m, r := methodOf("regexp", a)
	if r.Code != OK {
		return r
	}
	if m == "ReplaceAllStringFunc" {
		return fail("not implemented")
	}
	ps, is := reUsage[m]
	if !is {
		return fail(`unknown method "` + m + `"`)
	}
	if len(a)-2 != len(ps) {
		u := "regexp " + m
		for _, p := range ps {
			u += " " + p
		}
		return arity(u)
	}
	var re *regexp.Regexp
	var ss []string
	n := 0
	for i, p := range ps {
		v := a[i+2]
		switch p {
		case "re":
			x, is := v.(Native)
			if !is {
				return fail("invalid regexp value")
			}
			re = x.Re
		case "n":
			k, r := toInt(v)
			if r.Code != OK {
				return r
			}
			n = int(k)
		default:
			s, is := toStr(v)
			if !is {
				return fail(noStr)
			}
			ss = append(ss, s)
		}
	}
	strs := func(v []string) Value {
		out := []Value{}
		for _, s := range v {
			out = append(out, String(s))
		}
		return List{out}
	}
	ints := func(v []int) Value {
		out := []Value{}
		for _, i := range v {
			out = append(out, Int(i))
		}
		return List{out}
	}
	made := func(x *regexp.Regexp, err error) Res {
		if err != nil {
			return fail(err.Error())
		}
		return ok(Native{x})
	}
	var out Value = Nil{}
	switch m {
	case "QuoteMeta":
		out = String(regexp.QuoteMeta(ss[0]))
	case "Compile":
		return made(regexp.Compile(ss[0]))
	case "CompilePOSIX":
		return made(regexp.CompilePOSIX(ss[0]))
	case "FindAllString":
		if v := re.FindAllString(ss[0], n); v != nil {
			out = strs(v)
		}
	case "FindAllStringIndex", "FindAllStringSubmatchIndex":
		v := re.FindAllStringSubmatchIndex(ss[0], n)
		if m == "FindAllStringIndex" {
			v = re.FindAllStringIndex(ss[0], n)
		}
		if v != nil {
			l := []Value{}
			for _, x := range v {
				l = append(l, ints(x))
			}
			out = List{l}
		}
	case "FindAllStringSubmatch":
		if v := re.FindAllStringSubmatch(ss[0], n); v != nil {
			l := []Value{}
			for _, x := range v {
				l = append(l, strs(x))
			}
			out = List{l}
		}
	case "FindString":
		out = String(re.FindString(ss[0]))
	case "FindStringIndex":
		if v := re.FindStringIndex(ss[0]); v != nil {
			out = ints(v)
		}
	case "FindStringSubmatch":
		if v := re.FindStringSubmatch(ss[0]); v != nil {
			out = strs(v)
		}
	case "FindStringSubmatchIndex":
		if v := re.FindStringSubmatchIndex(ss[0]); v != nil {
			out = ints(v)
		}
	case "LiteralPrefix":
		p, all := re.LiteralPrefix()
		out = Tuple{[]Value{String(p), Bool(all)}}
	case "Longest":
		re.Longest()
	case "MatchString":
		out = Bool(re.MatchString(ss[0]))
	case "NumSubexp":
		out = Int(re.NumSubexp())
	case "ReplaceAllLiteralString":
		out = String(re.ReplaceAllLiteralString(ss[0], ss[1]))
	case "ReplaceAllString":
		out = String(re.ReplaceAllString(ss[0], ss[1]))
	case "Split":
		out = strs(re.Split(ss[0], n))
	case "String":
		out = String(re.String())
	case "SubexpIndex":
		out = Int(re.SubexpIndex(ss[0]))
	case "SubexpNames":
		out = strs(re.SubexpNames())
	}
	return ok(out)
}
