package main

import (
	"context"
	"fmt"
	"helena/native/go_os"
	"helena/native/go_regexp"
	"helena/native/go_slog"
	. "helena/verifsim/model"
	"helena/verifsim/rt"
	simos "helena/verifsim/simos"
	"log/slog"
	"path/filepath"
	"sort"
	"strconv"
	"syscall"
)

// Native modules (P23): scripts use files, regular expressions and the log
// while other scripts run and the machine changes and fails under them.

// nworld is the machine as each side finds it.
type nworld struct {
	r     *Run
	h     *mhost
	files [2]map[string]*nfile // of the model, of the code under test
	reads [2]map[string]int
	memo  map[string]string
	plans []nplan // changes of the machine
}
type nfile struct {
	data string
	err  string // good: empty
}
type nplan struct {
	path string
	f    *nfile
}

var nerrs = map[string]syscall.Errno{"missing": syscall.ENOENT, "directory": syscall.EISDIR, "denied": syscall.EACCES,
	"failing": syscall.EIO, "too many open": syscall.EMFILE, "no memory": syscall.ENOMEM}
var nerrNames = func() (v []string) {
	for n := range nerrs {
		v = append(v, n)
	}
	sort.Strings(v)
	return
}()
var npaths = []string{"f1", "/sim/f2", "sub/../f1", "f3.txt", "dir"}

func nabs(p string) string {
	if filepath.IsAbs(p) {
		return filepath.Clean(p)
	}
	return filepath.Join("/sim", p)
}

// at decides what the n-th read of a file of a side comes to.
func (w *nworld) at(side int, p string) (data, err string) {
	f := w.files[side][p]
	if f == nil {
		return "", "missing"
	}
	if f.err != "" {
		return "", f.err
	}
	n := w.reads[side][p]
	w.reads[side][p]++
	k := fmt.Sprint(p, n)
	x, is := w.memo[k]
	if !is {
		if w.r.C.Is(rt.Fault, 6) {
			x = []string{"failing", "denied", "too many open", "no memory"}[w.r.C.N(rt.Fault, 4)]
			w.r.count("fault: read fails: " + x)
			w.r.logf("    fault: read %d of %s: %s", n, p, x)
		}
		w.memo[k] = x
	}
	return f.data, x
}

// Data and Log are the machine of the model.
func (w *nworld) Data(path string) (string, string) {
	w.r.count("file reads")
	if path == "" {
		return "", "open : " + syscall.ENOENT.Error()
	}
	d, e := w.at(0, nabs(path))
	if e == "" {
		return d, ""
	}
	op := "open "
	if e == "directory" || e == "failing" {
		op = "read "
	}
	return "", op + path + ": " + nerrs[e].Error()
}
func (w *nworld) Log(level, msg string) { w.h.Ev = append(w.h.Ev, logLine(level, msg)) }
func logLine(level, msg string) string  { return "log " + level + " " + strconv.Quote(msg) }

// fault is the machine of the code under test.
func (w *nworld) fault(op, path string, data []byte) ([]byte, error) {
	d, e := w.at(1, path)
	if e == "" {
		return []byte(d), nil
	}
	if e == "failing" {
		// part of the data comes before the failure
		return []byte(d)[:len(d)/2], simos.ReadError{Errno: nerrs[e]}
	}
	return []byte(d)[:len(d)/2], nerrs[e]
}
func (w *nworld) change(side int, p nplan) {
	w.files[side][p.path] = p.f
	if side == 1 {
		if p.f.err == "missing" {
			delete(simos.S.Files, p.path)
		} else {
			simos.S.Files[p.path] = &simos.Node{Data: []byte(p.f.data)}
		}
	}
}

// logs is where the log goes.
type logs struct {
	in *Sys
	w  *World
}

func (l logs) Enabled(context.Context, slog.Level) bool { return true }
func (l logs) WithAttrs([]slog.Attr) slog.Handler       { return l }
func (l logs) WithGroup(string) slog.Handler            { return l }
func (l logs) Handle(_ context.Context, r slog.Record) error {
	line := logLine(r.Level.String(), r.Message)
	r.Attrs(func(a slog.Attr) bool {
		line += " " + a.String()
		return true
	})
	l.in.Ev = append(l.in.Ev, line)
	if l.w.r.C.Is(rt.Fault, 4) {
		l.w.r.count("fault: log not written")
		return syscall.ENOSPC
	}
	return nil
}

var texts = []string{"", "a", "abc", "aXbXc", "foo bar baz", "k1=v1,k2=v2", "x\x00y", "caf\u00e9 caf\u00e9", "line1\nline2\nline3", "\xff\xfe", "aaaa", "foo.bar(baz)", "$1 ${n} \\"}

func nativeSetup(p *Pair, g *G) *Script {
	r := p.r
	w := &nworld{r: r, h: p.h, memo: map[string]string{}}
	for i := range w.files {
		w.files[i] = map[string]*nfile{}
		w.reads[i] = map[string]int{}
	}
	draw := func() nplan {
		pl := nplan{nabs(pick(g, npaths)), &nfile{data: pick(g, texts)}}
		if g.N(8) == 0 {
			for len(pl.f.data) < 5000 {
				pl.f.data += "0123456789 abc\n"
			}
		}
		if r.C.Is(rt.Fault, 3) {
			pl.f.err = nerrNames[r.C.N(rt.Fault, len(nerrNames))]
			r.count("fault: file " + pl.f.err)
		}
		return pl
	}
	for i := 0; i < 4; i++ {
		pl := draw()
		w.change(0, pl)
		w.change(1, pl)
	}
	for i := 0; i < 6; i++ {
		w.plans = append(w.plans, draw())
	}
	apply := func(side int) func(l string) {
		return func(l string) {
			if n, err := strconv.Atoi(l); err == nil {
				w.change(side, w.plans[n])
			}
		}
	}
	p.h.onEnv, p.w.onEnv = apply(0), apply(1)
	simos.S.Fault = w.fault
	slog.SetDefault(slog.New(logs{p.s, p.w}))
	for _, n := range []string{"os", "slog", "regexp"} {
		p.m.NewNative("go:"+n, n, w)
	}
	p.s.Reg.Register("go:os", go_os.Initmodule())
	p.s.Reg.Register("go:slog", go_slog.Initmodule())
	p.s.Reg.Register("go:regexp", go_regexp.Initmodule())
	s := &Script{}
	for _, n := range []string{"os", "slog", "regexp"} {
		switch g.N(4) {
		case 0:
			// through the module
			s.Sents = append(s.Sents, Cmd("import", Lit("go:"+n), Lit("M"+n)), Cmd("M"+n, Lit("import"), Lit(n)))
		case 1:
			s.Sents = append(s.Sents, Cmd("import", Lit("go:"+n), Tup(Tup(Lit(n), Lit("N"+n)))), Cmd("alias", Lit(n), Lit("N"+n)))
		default:
			s.Sents = append(s.Sents, Cmd("import", Lit("go:"+n), Tup(Lit(n))))
		}
	}
	x := patterns[g.N(len(patterns)-3)]
	for i := 1; i <= 3; i++ {
		if g.N(3) > 0 {
			x = patterns[g.N(len(patterns)-3)]
		}
		s.Sents = append(s.Sents, Cmd("set", lit("re%d", i), ExprC("regexp", Lit("Compile"), quoted(x))))
	}
	return s
}

var patterns = []string{"a", "a+", "a*", "(a)(X)?(b)", `\w+`, `(?P<k>\w+)=(?P<v>\w+)`, "[^ ]+", "a|ab|abc", "f|fo|foo", "(a|aX)(b|Xb)?", "k|k1|l|li|x|x.", "(?i)FOO", "", "^line", "(?m)^line(\\d)", ".", "a{2}", "x.y", "(",
	"a**", `\p{Nope}`}

// quoted is a word giving any text.
func quoted(s string) *Word {
	out := ""
	for _, c := range []byte(s) {
		switch c {
		case '\\', '$', '"', '[', ']', '{', '}', '(', ')', '#', ';':
			out += "\\" + string(c)
		case '\n':
			out += `\n`
		case 0:
			out += `\0`
		default:
			out += string([]byte{c})
		}
	}
	// the model is given the text itself
	return &Word{Kind: WStr, Parts: []*Word{{Kind: WRaw, Text: out, Val: String(s)}}}
}
func plain(s string) bool {
	for _, c := range []byte(s) {
		if c >= 0x80 {
			return false
		}
	}
	return true
}

func focusNative(g *G, s *gs) []*Sentence {
	text := func() *Word {
		switch g.N(6) {
		case 0:
			return Var("s")
		case 1:
			return Var("txt")
		case 2:
			if g.N(3) == 0 {
				return g.Any(s, 2)
			}
		}
		for {
			if t := pick(g, texts); plain(t) {
				return quoted(t)
			}
		}
	}
	re := func() *Word {
		switch g.N(12) {
		case 0:
			return text()
		case 1:
			return Var("res")
		}
		return Var(pick(g, []string{"re1", "re2", "re3"}))
	}
	guard := func(e *Word) *Word {
		if g.N(4) > 0 {
			return ExprC("catch", BlkC(Cmd("idem", e)), Lit("error"), Lit("msg"), BlkC(Cmd("emit", Lit("failed"), Var("msg"))))
		}
		return e
	}
	call := func() *Word {
		switch g.N(12) {
		case 0, 1:
			return ExprC("os", Lit("ReadFile"), pick(g, []*Word{Lit(pick(g, npaths)), Lit(pick(g, npaths)), Lit(pick(g, npaths)), Lit("nowhere"), Tup(Lit("f1")), Str(Lit("f"), ExprC("tick", Lit(g.label()), Lit("1")))}))
		case 2, 3:
			return ExprC("slog", Lit(pick(g, []string{"Debug", "Info", "Warn", "Error", "Error", "Fatal"})), text())
		case 4:
			m := pick(g, []string{"os", "slog", "regexp"})
			ws := []*Word{}
			for n := g.N(4); n > 0; n-- {
				ws = append(ws, pick(g, []*Word{Lit("ReadFile"), Lit("f1"), Lit("Compile"), Lit("FindString"), Var("re1"), Tup(Lit("a")), Lit("ReplaceAllStringFunc"), Lit("QuoteMeta"), text()}))
			}
			if m != "regexp" && len(ws) > 2 {
				ws = ws[:2] // more are not looked at
			}
			return ExprC(m, ws...)
		}
		names := []string{}
		for n := range ReMethods() {
			names = append(names, n)
		}
		sort.Strings(names)
		m := pick(g, names)
		if g.Is(12) {
			m = "Longest"
		} else if g.Is(6) {
			m = pick(g, []string{"FindString", "FindAllString", "ReplaceAllString"})
		}
		ws := []*Word{Lit(m)}
		for _, p := range ReMethods()[m] {
			switch p {
			case "re":
				if g.N(5) == 0 {
					ws = append(ws, ExprC("regexp", Lit(pick(g, []string{"Compile", "CompilePOSIX"})), quoted(pick(g, patterns))))
				} else {
					ws = append(ws, re())
				}
			case "n":
				ws = append(ws, pick(g, []*Word{Lit("-1"), Lit("0"), Lit("1"), Lit("2"), Lit("100"), g.Num(s, 3), Lit("x")}))
			case "expr":
				ws = append(ws, quoted(pick(g, patterns)))
			case "repl":
				ws = append(ws, pick(g, []*Word{Lit("Z"), quoted("$1-$k"), quoted("${k}x"), text()}))
			default:
				if m == "SubexpIndex" {
					ws = append(ws, Lit(pick(g, []string{"k", "v", "none"})))
					continue
				}
				w := text()
				if g.N(3) == 0 {
					w = ExprC("tick", Lit(g.label()), w)
				}
				ws = append(ws, w)
			}
		}
		if g.Is(20) {
			ws = ws[:1+g.N(len(ws))]
		}
		return ExprC("regexp", ws...)
	}
	out := []*Sentence{}
	for k := 1 + g.N(4); k > 0; k-- {
		switch g.N(10) {
		case 0:
			out = append(out, Cmd("env", lit("%d", g.N(6))))
		case 1:
			// only what has been read stays
			out = append(out, Cmd("set", Lit("txt"), ExprC("catch", BlkC(Cmd("os", Lit("ReadFile"), Lit(pick(g, npaths)))), Lit("error"), Lit("m"), BlkC(Cmd("emit", Lit("unread"), Var("m"))))))
		case 2:
			out = append(out, Cmd("set", Lit(pick(g, []string{"re1", "re2", "re3", "res"})), guard(ExprC("regexp", Lit("Compile"), quoted(pick(g, patterns))))))
		case 3:
			out = append(out, Cmd("catch", BlkC(Cmd("emit", Lit(g.label()), call()), Cmd("tick", Lit(g.label())), Cmd("emit", Lit(g.label()), call())), Lit("error"), Lit("msg"), BlkC(Cmd("emit", Lit("failed"), Var("msg")))))
		case 4:
			n := g.fresh("co")
			out = append(out, Cmd("set", Lit(n), ExprC("coroutine", BlkC(Cmd("emit", Lit(g.label()), guard(call())), Cmd("yield", guard(call())), Cmd("idem", guard(call()))))))
			s.co = append(s.co, n)
			out = append(out, Cmd("emit", Lit(g.label()), Expr(Scr(Sen(Var(n), Lit("wait"))))))
		default:
			out = append(out, Cmd("emit", Lit(g.label()), guard(call())))
		}
	}
	return out
}

func init() {
	pf := &Profile{
		Tick: TickProfile{OK: 6, Yield: 3, Error: 1}, TickW: 2, Procs: 3, Scripts: 5, Actions: 50, Stmts: 1,
		Wrong: 30, Slip: 200, Abandon: 30, Epilogue: 1, Keep: true, Extra: focusNative, Setup: nativeSetup}
	register(&Prop{ID: "P23", Quick: 12000, Deep: 400000,
		Real: realAll + ", go_os, go_slog", Stub: stubAll + ", the log's handler; the model calls Go's regexp package itself",
		Rule: "runs with a different sequence of step outcomes (code, value, events, variables), counting only runs in which a script was suspended or a fault point was reached",
		Run:  func(r *Run) *Violation { return scenario(r, pf) }})
}
