package main

import (
	"errors"
	"fmt"
	"helena/cli"
	"helena/verifsim/model"
	"helena/verifsim/rt"
	simos "helena/verifsim/simos"
	readline "helena/verifsim/simreadline"
	"io"
	"log/slog"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"syscall"

	"github.com/fatih/color"
)

// Sessions of the command line tool (P12): the whole program runs against a
// simulated terminal and file system, line by line in step with a model of the
// session.

// any text, in a display the model does not predict
const anyText = "\x01"

// display shows a value as the tool does; brief: as an argument in a trace.
func display(v model.Value, brief bool) string {
	all := func(vs []model.Value) string {
		p := []string{}
		for _, x := range vs {
			p = append(p, display(x, brief))
		}
		return strings.Join(p, " ")
	}
	switch x := v.(type) {
	case model.Nil:
		return "[]"
	case model.Bool, model.Int, model.Real:
		return strings.SplitN(model.Show(v), ":", 2)[1]
	case model.String:
		return model.Literal(string(x))
	case model.Tuple:
		return "(" + all(x.V) + ")"
	case model.List:
		if brief {
			return "[list (...)]"
		}
		return "[list (" + all(x.V) + ")]"
	case model.Dict:
		if brief {
			return "[dict (...)]"
		}
		ks := []string{}
		for k := range x.M {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		vs := []model.Value{}
		for _, k := range ks {
			vs = append(vs, model.String(k), x.M[k])
		}
		return "[dict (" + all(vs) + ")]"
	case model.Block:
		if x.Src != nil {
			return "{" + *x.Src + "}"
		}
		if brief {
			return "{...}"
		}
		return "{#{undisplayable value}#}"
	case model.CmdV:
		return "{#{command}#}"
	case model.SpecV:
		return "{#{undisplayable value}#}"
	case model.Native:
		return "{#{undisplayable value}#}"
	}
	return anyText
}
func typeName(v model.Value) string {
	switch v.(type) {
	case model.Nil:
		return "NIL"
	case model.Bool:
		return "BOOLEAN"
	case model.Int:
		return "INTEGER"
	case model.Real:
		return "REAL"
	case model.String:
		return "STRING"
	case model.Tuple:
		return "TUPLE"
	case model.List:
		return "LIST"
	case model.Dict:
		return "DICTIONARY"
	case model.Block:
		return "SCRIPT"
	case model.CmdV:
		return "COMMAND"
	case model.SpecV:
		return "CUSTOM[argspec]"
	case model.Native:
		return "CUSTOM[go:Regexp]"
	case model.QualV:
		return "QUALIFIED"
	}
	return anyText
}
func pattern(s string) string {
	return strings.ReplaceAll(regexp.QuoteMeta(s), anyText, `(?s:.*?)`)
}

// answer is what the tool is to print.
type answer struct {
	trace  []model.Level
	traced bool // a trace the model does not predict may come first
	text   string
	status string // for the statistics
}

var fileOf = `(?:\(script\)|[\w./]+)`
var spurious = regexp.MustCompile(`^` + fileOf + `(?:(?::\d+:\d+:)? +| \{#\{command\}#\})\n`)
var anyLevel = regexp.MustCompile(`^` + fileOf + `(?::\d+:\d+:)? [^\n]*\n`)

func levelPattern(l model.Level) string {
	args := `(?s:.*?)`
	if !l.Unknown {
		p := []string{}
		for _, a := range l.Args {
			p = append(p, display(a, true))
		}
		args = pattern(strings.Join(p, " "))
	}
	switch {
	case l.AnyPos:
		return `^` + fileOf + `(?::\d+:\d+:)? ` + args + `\n`
	case l.NoPos:
		return `^` + fileOf + ` ` + args + `\n`
	}
	f := l.File
	if f == "" {
		f = "(script)"
	}
	return `^` + regexp.QuoteMeta(fmt.Sprintf("%s:%d:%d: ", f, l.Line+1, l.Col+1)) + args + `\n`
}

// matches reports how what was printed differs from an answer.
func (a *answer) matches(out string) string {
	rest := out
	k := 0
	number := func() bool {
		n := "[" + strconv.Itoa(k) + "] "
		if strings.HasPrefix(rest, n) {
			rest = rest[len(n):]
			k++
			return true
		}
		return false
	}
	if a.traced {
		for number() {
			m := anyLevel.FindString(rest)
			rest = rest[len(m):]
		}
	} else {
		for _, l := range a.trace {
			if len(l.Args) == 0 && !l.Unknown {
				continue
			}
			re := regexp.MustCompile(levelPattern(l))
			for {
				if !number() {
					return fmt.Sprintf("level %s of the trace expected, got %q", re, rest)
				}
				if m := re.FindString(rest); m != "" {
					rest = rest[len(m):]
					// unknown arguments may go over several lines
					for l.Unknown && strings.Contains(rest, "\n["+strconv.Itoa(k)+"] ") && !strings.HasPrefix(rest, "["+strconv.Itoa(k)+"] ") {
						rest = rest[strings.Index(rest, "\n")+1:]
					}
					break
				}
				m := spurious.FindString(rest)
				if m == "" {
					return fmt.Sprintf("level %s of the trace expected, got %q", re, rest)
				}
				rest = rest[len(m):]
			}
		}
		for number() {
			m := spurious.FindString(rest)
			if m == "" {
				return fmt.Sprintf("no further level of the trace expected, got %q", rest)
			}
			rest = rest[len(m):]
		}
	}
	text := regexp.MustCompile(`^` + pattern(a.text) + `\n$`)
	if n := len(a.trace); n > 0 && !a.traced && a.trace[n-1].Unknown {
		for !text.MatchString(rest) && strings.Contains(rest, "\n") {
			rest = rest[strings.Index(rest, "\n")+1:]
		}
	}
	if !text.MatchString(rest) {
		return fmt.Sprintf("%q expected, got %q", a.text, rest)
	}
	return ""
}

// session is one session with the tool.
type session struct {
	r       *Run
	w       *World
	h       *mhost
	m       *model.Interp
	in      *Sys
	g       *G
	place   *gs
	text    string        // lines of the command so far
	script  *model.Script // what the model runs when it is complete
	lines   []string      // still to be typed
	fixed   *answer       // the answer to a line of no interest to the model
	want    *answer       // to the last line
	prompt  string
	last    model.Value
	pos, ev int
	typed   int
	over    bool
	ending  error
	exited  bool
	left    int
	names   []string
	fault   *Violation
	files   map[string]*sourced
	reads   map[string]int
	rreads  map[string]int
	memo    map[string]string
	loading int
	natives bool // imported
}

// sourced is a file of the session.
type sourced struct {
	name   string
	script *model.Script
	text   string
	state  string // good, or what is wrong with it
	body   string
}

var fileErrors = map[string]error{"missing": syscall.ENOENT, "a directory": syscall.EISDIR,
	"unreadable": syscall.EACCES, "failing": syscall.EIO}

func (s *session) fileError(f *sourced, state string) string {
	op := "open "
	if state == "a directory" {
		op = "read "
	}
	return "error reading file: " + op + f.name + ": " + fileErrors[state].Error()
}

// read decides what the n-th read of a file finds.
func (s *session) read(f *sourced, n int) string {
	if f.state != "good" {
		return f.state
	}
	k := fmt.Sprint(f.name, n)
	x, is := s.memo[k]
	if !is {
		x = "good"
		if s.r.C.Is(rt.Fault, 8) {
			x = []string{"unreadable", "failing"}[s.r.C.N(rt.Fault, 2)]
			s.r.logf("    fault: read %d of %s is %s", n, f.name, x)
			s.r.count("fault: read of a sourced file fails")
		}
		s.memo[k] = x
	}
	return x
}

// source is the model's reading of a file.
func (s *session) source(path string) (*model.Script, string) {
	f := s.files[path]
	if f == nil {
		return nil, "error reading file: open " + path + ": " + syscall.ENOENT.Error()
	}
	n := s.reads[path]
	if f.state == "good" || f.state == "damaged" {
		s.reads[path]++
	}
	switch st := s.read(f, n); st {
	case "good":
		s.r.count("file sourced")
		return f.script, ""
	case "damaged":
		s.r.count("damaged file sourced")
		return nil, anyText
	default:
		return nil, s.fileError(f, st)
	}
}

// write makes a version of a file.
func (s *session) write(name string) {
	r := s.r
	f := &sourced{name: name, state: "good"}
	s.g.budget = 8
	f.script = s.g.Body(s.place, 1+r.N(3)).Clone()
	st := s.style()
	st.File = name
	if isModule(name) {
		st.File = "/sim/" + name
		sc := model.Scr(model.Cmd("import", model.Lit("host"), model.Tup(model.Lit("emit"), model.Lit("tick"), model.Lit("steps"), model.Lit("keep"), model.Lit("env"))))
		sc.Sents = append(sc.Sents, Prelude().Sents...)
		pl := rootPlace()
		pl.own = true
		s.g.budget = 8
		sc.Sents = append(sc.Sents, s.g.Body(pl, r.N(3)).Sents...)
		s.g.budget = 8
		fn := pl.clone()
		fn.fn = true
		sc.Sents = append(sc.Sents, model.Cmd("set", model.Lit("count"), model.Lit("0")), model.Cmd("proc", model.Lit(name+"f"), model.Tup(model.Lit("x")), model.BlkC(
			model.Cmd("emit", model.Lit(name), model.Var("x")), model.Cmd("tick", model.Lit(s.g.label())), model.Cmd("idem", model.Var("x")))),
			model.Cmd("macro", model.Lit(name+"g"), model.Tup(), model.BlkC(model.Cmd("emit", model.ExprC("exists", model.Lit("count"))))),
			model.Cmd("closure", model.Lit(name+"h"), model.Tup(), model.BlkC(model.Cmd("set", model.Lit("count"), model.Expr(model.Scr(model.Sen(model.Var("count"), model.Lit("+"), model.Lit("1"))))))),
			model.Cmd("export", model.Lit(name+"f")), model.Cmd("export", model.Lit(name+"g")), model.Cmd("export", model.Lit(name+"h")))
		f.script = sc.Clone()
	}
	f.text = model.Render(f.script, st)
	f.body = f.text
	if r.C.Is(rt.Fault, 4) {
		f.state = []string{"missing", "a directory", "unreadable", "failing", "damaged"}[r.C.N(rt.Fault, 5)]
		if f.state == "damaged" {
			f.body = f.text[:r.C.N(rt.Fault, len(f.text)+1)] + []string{"", "}", ")", "]", `"`, "{", "[", "("}[r.C.N(rt.Fault, 8)]
			ref, st, odd := model.Read(f.body)
			if odd || st == model.Accepted && ref.Sound() {
				f.state = "good"
				f.body = f.text
			}
		}
		if f.state != "good" {
			r.count("fault: sourced file " + f.state)
		}
	}
	n := &simos.Node{Data: []byte(f.body)}
	switch f.state {
	case "missing":
		n = nil
	case "a directory":
		n.Dir = true
	case "unreadable", "failing":
		n.Err = fileErrors[f.state]
	}
	if n == nil {
		delete(simos.S.Files, "/sim/"+name)
	} else {
		simos.S.Files["/sim/"+name] = n
	}
	s.files[name] = f
	r.logf("file %s, %s:\n%s", name, f.state, indent(f.body))
}

func isModule(name string) bool { return name[0] == 'm' }

// module is the model's reading of a file to import.
func (s *session) module(path string) (*model.Script, string) {
	name := strings.TrimPrefix(path, "/sim/")
	f := s.files[name]
	if f == nil {
		return nil, "error reading module: open " + path + ": " + syscall.ENOENT.Error()
	}
	sc, msg := s.source(name)
	if sc == nil && msg != anyText {
		msg = strings.Replace(msg, "reading file", "reading module", 1)
		msg = strings.Replace(msg, " "+name+":", " "+path+":", 1)
	}
	return sc, msg
}

// imports is a command that imports a file, or calls what it imported.
func (s *session) imports() *model.Script {
	r := s.r
	m := []string{"m1", "m2"}[r.N(2)]
	if s.files[m] == nil && r.N(8) > 0 || r.Is(5) {
		s.write(m)
	}
	f := model.Lit(m + []string{"f", "g", "h"}[r.N(3)])
	path := []string{m, m, m, "./" + m, "sub/../" + m}[r.N(5)]
	im := model.Cmd("import", model.Lit(path), model.Tup(f))
	call := model.Cmd(f.Text)
	if f.Text[2] == 'f' {
		call.Words = append(call.Words, s.g.Any(s.place, 1))
	}
	r.count("import of a file of the session")
	switch r.N(8) {
	case 0:
		return model.Scr(im, call)
	case 1:
		return model.Scr(call)
	case 2:
		return model.Scr(model.Cmd("catch", model.BlkC(im, call), model.Lit("error"), model.Lit("x"), model.BlkC(model.Cmd("emit", model.Lit("caught")))), call)
	case 3:
		return model.Scr(model.Cmd("import", model.Lit(path), model.Lit("M"+m)), model.Cmd("M"+m, model.Lit("import"), f, model.Lit("x"+f.Text)))
	case 4:
		return model.Scr(model.Cmd("proc", model.Lit("pi"), model.Tup(), model.BlkC(im, call)), model.Cmd("pi"), call)
	case 5:
		return model.Scr(model.Cmd("x"+f.Text), model.Cmd("idem", model.Expr(model.Scr(call))))
	}
	return model.Scr(im)
}

// style lays a command out over lines.
func (s *session) style() model.Style { return layout(s.r, 0) }
func layout(r *Run, without int) model.Style {
	nl := r.N(4)
	return model.Style{
		Newlines: nl > 0,
		Gap: func(d int) string {
			if nl > 1 && r.Is(9) {
				r.count("line continued with a backslash")
				return []string{" \\\n", " \\\n  ", "\\\n", "  ", " #{ note }# ", " #{ note\n }#\\\n"}[r.N(6)]
			}
			return " "
		},
		Sep: func(d int) string {
			if d == 0 || nl == 0 {
				return []string{"; ", ";", " ; "}[r.N(3)]
			}
			if nl == 1 {
				return "\n"
			}
			// the last ones make a sentence of a comment
			return []string{"\n", "; ", "\n\n", ";\n", "\n  ", " #{ a\n b }# \n", ";\t", "\n# note {\n", "\n## note ; \\\n more\n"}[r.N(9-without)]
		},
	}
}

// command draws the next command to type.
func (s *session) command() {
	r := s.r
	s.script, s.fixed = nil, nil
	text := ""
	switch k := r.N(24); {
	case s.loading < len(loading):
		text = loading[s.loading]
		s.loading++
		if strings.HasPrefix(text, "load") {
			s.fixed = &answer{text: "[] # NIL", status: "load"}
		} else {
			s.script = model.Scr(model.Cmd("import", model.Lit("host"), model.Tup(model.Lit("emit"), model.Lit("tick"), model.Lit("steps"), model.Lit("keep"), model.Lit("env"))))
		}
	case s.loading == len(loading):
		s.script = Prelude()
		s.loading++
	case s.left <= 0:
		// everything is still there
		if len(s.names) == 0 {
			s.over = true
			return
		}
		n := s.names[0]
		s.names = s.names[1:]
		s.script = model.Scr(model.Cmd("idem", model.Var(n)))
		text = "idem $" + n
	case k == 0:
		// nothing: the last result again
		text = []string{"", "  ", "# comment", "#{ comment\n over lines }#", "\t", "## {", ";"}[r.N(7)]
		s.script = &model.Script{}
		r.count("empty command")
	case k == 1:
		text = broken[r.N(len(broken))]
	case k == 2:
		// a file changes
		s.write([]string{"f1", "f2", "f3.lna"}[r.N(3)])
		fallthrough
	case k == 3 || k == 4:
		f := []string{"f1", "f2", "f3.lna", "f4"}[r.N(4)]
		if s.files[f] == nil && r.N(4) > 0 {
			s.write(f)
		}
		c := model.Cmd("source", model.Lit(f))
		s.script = model.Scr(c)
		switch r.N(8) {
		case 0:
			s.script = model.Scr(model.Cmd("if", model.Lit("true"), model.Blk(s.script)), model.Cmd("emit", model.Lit("after")))
		case 1:
			s.script = model.Scr(model.Cmd("set", model.Lit("z1"), model.Expr(s.script)))
		case 2:
			s.script = model.Scr(model.Cmd("catch", model.Blk(s.script), model.Lit("error"), model.Lit("x"), model.BlkC(model.Cmd("idem", model.Lit("caught")))))
		case 3:
			s.script = model.Scr(c, model.Cmd("emit", model.Lit("after")), c)
		case 4:
			if r.Is(2) {
				s.script = model.Scr(model.Cmd("source"))
			}
		}
	case k == 5:
		s.script = s.picol()
	case k == 9:
		s.script = s.imports()
	case k == 6, k == 7, s.natives && k == 8:
		s.script = s.native()
	default:
		s.g.budget = 3 + r.N(10)
		s.script = s.g.Body(s.place, 1+r.N(2))
		if len(s.script.Sents) == 0 {
			s.script = model.Scr(model.Cmd("idem", model.Lit("x")))
		}
	}
	s.left--
	if s.script != nil && text == "" && len(s.script.Sents) > 0 {
		s.script = s.script.Clone()
		text = model.Render(s.script, s.style())
	} else if s.script != nil && len(s.script.Sents) > 0 {
		s.script = s.script.Clone()
		model.Render(s.script, model.Style{})
	}
	s.lines = strings.Split(text, "\n")
}

// picol is a command running a Picol script.
func (s *session) picol() *model.Script {
	r := s.r
	g := &pgen{r: r, budget: 10 + r.N(20), calm: r.Is(3)}
	pl := &pplace{}
	b := &model.Script{}
	if r.N(8) > 0 {
		b = model.Scr(model.Cmd("set", model.Lit("a"), model.Lit("1")), model.Cmd("set", model.Lit("b"), model.Lit("2.5")))
		pl.vars = []string{"a", "b"}
	}
	b.Sents = append(b.Sents, g.body(pl, 1+r.N(4))...)
	hostless(b)
	c := model.Cmd("picol", model.Blk(b))
	sc := model.Scr(c)
	r.count("Picol scripts run by the tool")
	switch r.N(10) {
	case 0:
		return model.Scr(model.Cmd("set", model.Lit("z1"), model.Expr(sc)))
	case 1:
		return model.Scr(model.Cmd("catch", model.Blk(sc), model.Lit("return"), model.Lit("x"), model.BlkC(model.Cmd("idem", model.Var("x"))),
			model.Lit("error"), model.Lit("x"), model.BlkC(model.Cmd("idem", model.Str(model.Lit("caught "), model.Var("x")))),
			model.Lit("break"), model.BlkC(model.Cmd("idem", model.Lit("broken"))), model.Lit("continue"), model.BlkC(model.Cmd("idem", model.Lit("continued")))))
	case 2:
		return model.Scr(model.Cmd("proc", model.Lit("pp"), model.Tup(), model.Blk(model.Scr(c, model.Cmd("idem", model.Lit("end"))))), model.Cmd("pp"))
	case 3:
		return model.Scr(model.Cmd("foreach", model.Lit("i"), model.ExprC("list", model.Tup(model.Lit("1"), model.Lit("2"))), model.Blk(model.Scr(c, model.Cmd("emit", model.Lit("after"), model.Var("i"))))))
	case 4:
		if r.Is(2) {
			c.Words = append(c.Words, model.Lit("x"))
		} else {
			c.Words[1] = []*model.Word{model.Lit("x"), model.Tup(model.Lit("set"), model.Lit("a")), model.Expr(sc.Clone()), model.Var("a")}[r.N(4)]
		}
	}
	return sc
}

// native is a command that uses native modules, or loads one.
func (s *session) native() *model.Script {
	r := s.r
	if !s.natives {
		s.natives = true
		sc := &model.Script{}
		for _, n := range []string{"os", "slog", "regexp"} {
			sc.Sents = append(sc.Sents, model.Cmd("import", model.Lit("go:"+n), model.Tup(model.Lit(n))))
		}
		for i := 1; i <= 3; i++ {
			sc.Sents = append(sc.Sents, model.Cmd("set", model.Lit(fmt.Sprint("re", i)), model.ExprC("regexp", model.Lit("Compile"), quoted(patterns[r.N(len(patterns)-3)]))))
		}
		return sc
	}
	r.count("native commands in the tool")
	if r.Is(3) {
		load := model.Cmd("load", model.Lit("native/"+[]string{"go_os", "go_slog", "go_regexp", "host", "none", ""}[r.N(6)]), model.Lit([]string{"go:os", "go:regexp", "n1", "n2"}[r.N(4)]))
		switch r.N(12) {
		case 2:
			return model.Scr(model.Cmd("exit", model.Lit("1")))
		case 0:
			load.Words = load.Words[:1+r.N(2)]
		case 1:
			load.Words = append(load.Words, model.Lit("x"))
		}
		x := model.Cmd("import", model.Lit([]string{"go:os", "go:regexp", "go:slog", "n1"}[r.N(4)]), model.Tup(model.Lit([]string{"os", "regexp", "slog", "emit", "nothing"}[r.N(5)])))
		return model.Scr([][]*model.Sentence{{load}, {x}, {load, x}, {x, load}}[r.N(4)]...)
	}
	s.g.budget = 8
	return model.Scr(focusNative(s.g, s.place)...)
}

// Data and Log are the machine of the native commands of the model.
func (s *session) Data(path string) (string, string) {
	f := s.files[strings.TrimPrefix(nabs(path), "/sim/")]
	if f == nil || path == "" {
		return "", "open " + path + ": " + syscall.ENOENT.Error()
	}
	n := s.reads[f.name]
	if f.state == "good" || f.state == "damaged" {
		s.reads[f.name]++
	}
	switch st := s.read(f, n); st {
	case "good", "damaged":
		return f.body, ""
	default:
		op := "open "
		if st == "a directory" {
			op = "read "
		}
		return "", op + path + ": " + fileErrors[st].Error()
	}
}
func (s *session) Log(level, msg string) { s.h.Ev = append(s.h.Ev, logLine(level, msg)) }

// hostless takes the commands of the host out of a Picol script.
func hostless(sc *model.Script) {
	if sc == nil {
		return
	}
	for _, t := range sc.Sents {
		if len(t.Words) > 0 && t.Words[0].Kind == model.WLit {
			switch t.Words[0].Text {
			case "emit":
				t.Words = append([]*model.Word{model.Lit("set")}, t.Words[1:min(3, len(t.Words))]...)
			case "tick":
				t.Words = append([]*model.Word{model.Lit("set")}, t.Words[1:]...)
				if len(t.Words) == 2 {
					t.Words = append(t.Words, model.Lit("1"))
				}
			}
		}
		for _, w := range t.Words {
			hostless(w.Sub)
			for _, p := range w.Parts {
				hostless(p.Sub)
			}
		}
	}
}

var loading = []string{"load native/host host", "import host (emit tick steps keep env)"}

// broken are commands that are not scripts, or not valid ones.
var broken = []string{"}", "a ]", "idem )", "emit A}", "set x {emit B}}", `set x "a"b`, "idem [emit A]]", "emit A; idem $[]x{}", "emit A\\\n; idem {}{}",
	"a \"b\" c\"d\" e\"\"\"f\"\"\"g", "if true {emit A\n}}", "proc p () {\n emit A ]", "emit A; (a", "idem {\n(}\n", "emit [emit A; $]$(x"}

// next is the user typing a line.
func (s *session) next() (line string, err error) {
	r := s.r
	r.Ctl.Grant(r.P.Limit)
	if s.fault = s.judge(); s.fault != nil || r.Skip {
		s.over = true
		return "", io.EOF
	}
	for len(s.lines) == 0 {
		if s.text != "" {
			// a command left incomplete: it is closed or spoilt
			s.lines = []string{[]string{"}", ")", "]", `"`, `"""`, "}#", "x", "}}))]]"}[r.N(8)]}
			break
		}
		if s.names == nil && s.left == 0 {
			s.names = s.m.Names()
		}
		s.command()
		if s.over {
			return s.end()
		}
	}
	if s.typed > 2000 {
		s.over = true
		return s.end()
	}
	if s.loading > len(loading) && s.typed > 3 && r.C.Is(rt.Fault, 120) {
		r.count("fault: input ends")
		if s.text != "" {
			r.count("fault: input ends inside a command")
		}
		s.over = true
		return s.end()
	}
	line = s.lines[0]
	s.lines = s.lines[1:]
	if s.loading > len(loading) && s.script != nil && s.text != "" && r.C.Is(rt.Fault, 40) {
		// the user spoils the command
		bad := []string{"}", ")", "]", "}}}}", `"a"b`, "]]", "}#"}[r.C.N(rt.Fault, 7)]
		if _, st, odd := model.Read(s.text + bad); st == model.Rejected && !odd {
			line, s.lines = bad, nil
			r.count("fault: command spoilt half way")
		}
	}
	s.typed++
	s.text += line
	full := s.text
	r.logf("%s%s", s.prompt, line)
	s.want = nil
	ref, st, odd := model.Read(full)
	switch {
	case model.Waiting(full) || st == model.Incomplete:
		s.prompt = "... "
		s.text += "\n"
		r.count("line that does not complete a command")
		return line, nil
	case odd:
		panic("odd text " + full)
	case st == model.Rejected:
		s.want = &answer{text: anyText, status: "rejected"}
		s.lines = nil
	case !ref.Sound():
		s.want = &answer{text: anyText, traced: true, status: "invalid"}
		s.lines = nil
	case s.fixed != nil:
		s.want = s.fixed
		s.last = model.Nil{}
	case s.script == nil:
		// what was to be broken is not
		r.Skip = true
		return "", io.EOF
	case len(s.lines) > 0:
		// complete before its end: comments and blank lines before a command
		s.script, s.lines = s.script, s.lines
		s.want = s.run(&model.Script{})
	default:
		s.want = s.run(s.script)
	}
	s.prompt = "> "
	s.text = ""
	return line, nil
}

// end is the end of the input, or the user leaving.
func (s *session) end() (string, error) {
	if s.text == "" && s.r.Is(4) {
		s.exited = true
		s.r.logf("> exit")
		return "exit", nil
	}
	s.r.logf("%s(%v)", s.prompt, s.ending)
	return "", s.ending
}

// run has the model run a command.
func (s *session) run(sc *model.Script) *answer {
	if len(sc.Sents) == 0 {
		return okAnswer(s.last)
	}
	p := s.m.NewScript(sc)
	defer func() {
		if x := recover(); x != nil {
			if !isTooLong(x) {
				panic(x)
			}
			s.r.Skip = true
			s.r.count("discarded: too long")
		}
	}()
	r := p.Step(nil)
	s.r.count("answer: " + r.Code.String())
	switch r.Code {
	case model.OK:
		s.last = r.V
		return okAnswer(r.V)
	case model.ERROR:
		msg := model.Text(r.V)
		return &answer{trace: r.Trace, text: msg, status: "error"}
	case model.YIELD:
		p.Kill()
	}
	return &answer{text: "unexpected " + r.Code.String(), status: "unexpected"}
}
func okAnswer(v model.Value) *answer {
	return &answer{text: display(v, false) + " # " + typeName(v), status: "ok"}
}

// judge compares what the last line gave.
func (s *session) judge() *Violation {
	all := simos.S.Out.String()
	out := all[s.pos:]
	s.pos = len(all)
	if s.typed == 0 {
		if out != "" {
			return fail("output", "before the first command %q is printed", out)
		}
		return nil
	}
	if e := simos.S.Err.String(); e != "" {
		return fail("output", "%q is printed as errors of the process", e)
	}
	if !s.r.Skip {
		m, r := s.h.Ev[s.ev:], s.in.Ev[min(s.ev, len(s.in.Ev)):]
		for _, e := range m {
			s.r.logf("    event %s", e)
		}
		if d := diffEvents(m, r); d != "" {
			return fail("events", "%s", d)
		}
		s.ev = len(s.h.Ev)
	}
	s.r.logf("%s", indent(out))
	if simos.S.OutBroken || s.r.Skip {
		return nil
	}
	if s.want == nil {
		if out != "" {
			return fail("early", "the command is not complete, but %q is printed", out)
		}
		return nil
	}
	if d := s.want.matches(out); d != "" {
		return fail("answer", "%s", d)
	}
	s.r.state(s.want.status, out, s.m.Vars())
	return nil
}

// typing gives the lines to a run of the tool and collects its end.
func typing(r *Run, next func() (string, error), prompt func(string)) Out {
	color.NoColor = true
	simos.Args = []string{"helena"}
	readline.User.Next, readline.User.Prompt = next, prompt
	readline.User.Fail, readline.User.Open, readline.User.Closed = nil, 0, 0
	return safely(func() Out { cli.Cli(); return Out{Code: "returned"} })
}

func sessions(r *Run) *Violation {
	switch k := r.N(8); k {
	case 0:
		return soupSession(r)
	case 1:
		return fileSession(r)
	}
	w := NewWorld(r, TickProfile{OK: 10, Yield: 1, Error: 2, Return: 1, Break: 1, Continue: 1, Pass: 1})
	s := newSession(r, w)
	defer s.m.Close()
	simos.S.OutBroken = r.C.Is(rt.Fault, 30)
	if simos.S.OutBroken {
		r.count("fault: output cannot be written")
	}
	var wrong *Violation
	o := typing(r, s.next, func(p string) {
		if p != s.prompt && wrong == nil && s.fault == nil {
			wrong = fail("prompt", "prompt %q expected after %q, got %q", s.prompt, s.text, p)
		}
	})
	if r.Skip {
		return nil
	}
	switch {
	case s.fault != nil:
		return s.fault
	case wrong != nil:
		return wrong
	case o.Code == "hang" || o.Crash != "":
		return fail("crash", "the tool ends: %s %s", o.Code, o.Crash)
	case !s.over:
		return fail("end", "the session ends by itself: %s %s", o.Code, o.Text)
	case s.exited:
		if o.Code != "exit" || o.Text != "0" {
			return fail("end", "exit gives %s %s", o.Code, o.Text)
		}
	case o.Code != "returned" || readline.User.Open != readline.User.Closed:
		return fail("end", "after the end of input: %s %s, terminal opened %d closed %d", o.Code, o.Text, readline.User.Open, readline.User.Closed)
	}
	if all := simos.S.Out.String(); !s.exited && all[s.pos:] != "" {
		return fail("end", "after the end of input %q is printed", all[s.pos:])
	}
	if len(s.in.Ev) != len(s.h.Ev) {
		return fail("end", "after the end of input: events %v", s.in.Ev[min(s.ev, len(s.in.Ev)):])
	}
	if s.typed > 4 {
		r.Nontrivial = true
	}
	r.Stats["lines typed"] += int64(s.typed)
	return nil
}

func newSession(r *Run, w *World) *session {
	h := &mhost{w: w, n: map[string]int{}}
	s := &session{r: r, w: w, h: h, prompt: "> ", last: model.Nil{}, left: 6 + r.N(20), files: map[string]*sourced{},
		reads: map[string]int{}, rreads: map[string]int{}, memo: map[string]string{}}
	s.ending = []error{io.EOF, readline.ErrInterrupt, errors.New("terminal gone")}[r.C.N(rt.Fault, 3)]
	h.files = s.module
	s.m = model.NewInterp(h, "/sim")
	s.m.Max = 4000
	s.m.TraceOn = true
	s.m.Source(s.source)
	s.m.Embed()
	s.m.Load(s)
	s.m.Exit()
	machine(nil, "/sim")
	simos.S.Fault = func(op, path string, data []byte) ([]byte, error) {
		name := strings.TrimPrefix(path, "/sim/")
		f := s.files[name]
		if f == nil {
			return data, nil
		}
		n := s.rreads[name]
		s.rreads[name]++
		return data, fileErrors[s.read(f, n)]
	}
	s.in = cliHost(w)
	slog.SetDefault(slog.New(logs{s.in, w}))
	s.g = NewG(r, map[string]int{"steps": 1})
	s.g.Slip = []int{0, 30}[r.N(2)]
	s.g.tickW = r.N(3)
	s.place = rootPlace()
	return s
}

// fileSession gives the tool a file to run.
func fileSession(r *Run) *Violation {
	w := NewWorld(r, TickProfile{OK: 10, Yield: 1, Error: 2, Return: 1, Break: 1, Continue: 1, Pass: 1})
	s := newSession(r, w)
	defer s.m.Close()
	s.m.TraceOn = false
	s.loading = len(loading)
	s.g.budget = 20
	sc := model.Scr(Prelude().Sents...)
	sc.Sents = append(sc.Sents, s.g.Body(s.place, 1+r.N(4)).Sents...)
	text := strings.Join(loading, "\n") + "\n" + model.Render(sc, s.style())
	name := "/sim/main.lna"
	if r.Is(2) {
		name = "main.lna"
	}
	state := "good"
	if r.C.Is(rt.Fault, 6) {
		state = []string{"missing", "a directory", "unreadable", "failing"}[r.C.N(rt.Fault, 4)]
		r.count("fault: script file " + state)
	}
	r.logf("helena %s, %s:\n%s", name, state, indent(text))
	n := &simos.Node{Data: []byte(text), Dir: state == "a directory"}
	if !n.Dir && state != "good" {
		n.Err = fileErrors[state]
	}
	simos.S.Files["/sim/main.lna"] = n
	var mr model.Res
	if state == "good" {
		mr = s.m.NewScript(sc).Step(nil)
	}
	simos.Args = []string{"helena", name}
	color.NoColor = true
	r.Ctl.Grant(r.P.Limit)
	o := safely(func() Out { cli.Cli(); return Out{Code: "returned"} })
	out, errs := simos.S.Out.String(), simos.S.Err.String()
	r.logf("    -> %s %s out %q err %q", o.Code, o.Text, out, errs)
	if o.Crash != "" || o.Code != "exit" {
		return fail("crash", "the tool: %s %s", o.Code, o.Crash)
	}
	if d := diffEvents(s.h.Ev, s.in.Ev); d != "" {
		return fail("events", "%s", d)
	}
	want := &answer{status: "file"}
	switch {
	case state != "good":
		want.text = s.fileError(&sourced{name: name}, state)
	case mr.Code == model.OK:
		want = okAnswer(mr.V)
	case mr.Code == model.ERROR:
		msg := model.Text(mr.V)
		want.text = msg
	default:
		want.text = "unexpected " + mr.Code.String()
	}
	r.count("script file: " + mr.Code.String())
	r.Nontrivial = true
	r.state(out, errs)
	if state == "good" && mr.Code == model.OK {
		if d := want.matches(out); d != "" || o.Text != "0" || errs != "" {
			return fail("answer", "status %s, errors %q, %s", o.Text, errs, d)
		}
		return nil
	}
	if d := want.matches(errs); d != "" || o.Text == "0" || out != "" {
		return fail("answer", "status %s, output %q, %s", o.Text, out, d)
	}
	return nil
}

// soupSession types arbitrary commands, once a command per line and once with
// its lines broken: the answers are the same, and the session goes on.
func soupSession(r *Run) *Violation {
	w := NewWorld(r, soupTick)
	u := NewSoup(r)
	u.CLI = true
	u.left = 60
	cmds := strings.Split(u.Prelude(), "\n")
	for n := 3 + r.N(12); n > 0; n-- {
		c := u.sentence(0)
		if strings.Contains(c, "exit") || strings.Contains(c, "source") {
			continue
		}
		if _, st, odd := model.Read(c); st != model.Accepted || odd || model.Waiting(c) || len(c) > 2000 {
			continue
		}
		cmds = append(cmds, c)
	}
	whole, v := soupOnce(r, w, cmds, false)
	if v != nil || r.Skip {
		return v
	}
	broken, v := soupOnce(r, w, cmds, true)
	if v != nil || r.Skip {
		return v
	}
	for i := range whole {
		if i < len(broken) && whole[i] != broken[i] {
			return fail("split", "command %d answers %q, with its lines broken %q", i+1, whole[i], broken[i])
		}
	}
	r.Nontrivial = true
	r.state(strings.Join(whole, ""))
	r.count("arbitrary sessions")
	return nil
}

var positions = regexp.MustCompile(`:\d+:\d+: `)

// split breaks the lines of a command at its outermost gaps.
func split(r *Run, c string) string {
	if strings.ContainsAny(c, "\"#\\\n") {
		return c
	}
	var b strings.Builder
	d := 0
	for _, x := range c {
		switch x {
		case '{', '[', '(':
			d++
		case '}', ']', ')':
			d--
		case ' ':
			if d == 0 && r.C.Is(rt.SchedS, 3) {
				b.WriteString(" \\\n")
				continue
			}
		}
		b.WriteRune(x)
	}
	return b.String()
}

func soupOnce(r *Run, w *World, cmds []string, broken bool) (answers []string, v *Violation) {
	machine(nil, "/sim")
	rt.Reset()
	in := cliHost(w)
	lines := append([]string{}, loading...)
	ends := map[int]bool{0: true, 1: true}
	for i, c := range append(cmds, strings.ReplaceAll(health, "\n", ";")) {
		if broken && i < len(cmds) {
			c = split(r, c)
		}
		lines = append(lines, strings.Split(c, "\n")...)
		ends[len(lines)-1] = true
	}
	pos, i, ev := 0, 0, 0
	o := typing(r, func() (string, error) {
		r.Ctl.Grant(soupLimit)
		out := simos.S.Out.String()[pos:]
		pos += len(out)
		if i > 0 {
			r.logf("%s", indent(out))
			if ends[i-1] != (out != "") && v == nil {
				v = fail("answer", "line %q completes a command: %v, and %q is printed", lines[i-1], ends[i-1], out)
			}
			if ends[i-1] {
				e := in.Ev[min(ev, len(in.Ev)):]
				ev = len(in.Ev)
				answers = append(answers, positions.ReplaceAllString(out, " ")+strings.Join(e, "\n"))
			}
		}
		if i == len(lines) || v != nil {
			return "", io.EOF
		}
		r.logf("> %s", lines[i])
		i++
		return lines[i-1], nil
	}, nil)
	if o.Code == "hang" {
		r.Skip = true
		r.count("discarded: too long")
		return
	}
	if v != nil {
		return
	}
	if o.Code != "returned" {
		return nil, fail("crash", "the tool: %s %s %s", o.Code, o.Text, o.Crash)
	}
	return
}

func init() {
	register(&Prop{ID: "P12", Quick: 5000, Deep: 1000000, Real: realAll + ", cli", Stub: stubAll + ", terminal",
		Rule: "runs with a different sequence of (command, answer), counting only sessions of more than four lines",
		Run:  sessions})
}
