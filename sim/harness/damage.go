package main

import (
	"fmt"
	"helena/cli"
	"helena/core"
	"helena/verifsim/model"
	"helena/verifsim/rt"
	simos "helena/verifsim/simos"
	"strings"
)

// Damaged source texts (P11).

// dumpScript displays a parsed script as the reference reader does.
func dumpScript(b *strings.Builder, s core.Script) {
	at := func(p *core.SourcePosition) string {
		if p == nil {
			return "-"
		}
		return fmt.Sprintf("%d:%d", p.Line, p.Column)
	}
	b.WriteString("<")
	for _, t := range s.Sentences {
		b.WriteString("@" + at(t.Position))
		for _, w := range t.Words {
			b.WriteString(" " + at(w.Word.Position))
			for _, m := range w.Word.Morphemes {
				dumpMorpheme(b, m)
			}
		}
		b.WriteString(";")
	}
	b.WriteString(">")
}
func dumpMorpheme(b *strings.Builder, m core.Morpheme) {
	switch x := m.(type) {
	case core.LiteralMorpheme:
		fmt.Fprintf(b, " L0%q", x.Value)
	case core.HereStringMorpheme:
		fmt.Fprintf(b, " H%d%q", x.DelimiterLength, x.Value)
	case core.TaggedStringMorpheme:
		fmt.Fprintf(b, " G0%s%q", x.Tag, x.Value)
	case core.LineCommentMorpheme:
		fmt.Fprintf(b, " C%d%q", x.DelimiterLength, x.Value)
	case core.BlockCommentMorpheme:
		fmt.Fprintf(b, " D%d%q", x.DelimiterLength, x.Value)
	case core.TupleMorpheme:
		b.WriteString(" T")
		dumpScript(b, x.Subscript)
	case core.ExpressionMorpheme:
		b.WriteString(" E")
		dumpScript(b, x.Subscript)
	case core.BlockMorpheme:
		fmt.Fprintf(b, " B%q", x.Value)
		dumpScript(b, x.Subscript)
	case core.StringMorpheme:
		b.WriteString(" S(")
		for _, k := range x.Morphemes {
			dumpMorpheme(b, k)
		}
		b.WriteString(")")
	case core.SubstituteNextMorpheme:
		fmt.Fprintf(b, " %s%t", x.Value, x.Expansion)
	default:
		fmt.Fprintf(b, " %T", m)
	}
}

// reading is what became of a text.
type reading struct {
	status model.Status
	dump   string
	msg    string
	crash  string
}

func (a reading) same(b reading, dumps bool) bool {
	return a.crash == b.crash && a.status == b.status && (!dumps || a.dump == b.dump)
}
func (a reading) String() string {
	if a.crash != "" {
		return a.crash
	}
	s := a.status.String()
	if a.msg != "" {
		s += " (" + a.msg + ")"
	}
	return s + " " + a.dump
}

func guardedReading(r *Run, f func() reading) (out reading) {
	r.Ctl.Grant(8_000_000)
	o := safely(func() Out {
		out = f()
		return Out{}
	})
	if o.Crash != "" {
		out.crash = o.Code + ": " + o.Crash
	}
	return
}
func closing(p *core.Parser) reading {
	res := p.CloseStream()
	if !res.Success {
		return reading{status: model.Incomplete, msg: res.Message}
	}
	var b strings.Builder
	dumpScript(&b, *res.Script)
	return reading{status: model.Accepted, dump: b.String()}
}

// readAtOnce reads a whole text.
func readAtOnce(r *Run, text string) reading {
	return guardedReading(r, func() reading {
		in := core.NewStringStream(text)
		out := core.NewArrayTokenStream([]core.Token{}, in.Source())
		(&core.Tokenizer{}).TokenizeStream(in, out)
		p := core.NewParser(&core.ParserOptions{CapturePositions: true})
		if res := p.ParseStream(out); !res.Success {
			return reading{status: model.Rejected, msg: res.Message}
		}
		return closing(p)
	})
}

// stepper reads texts token by token with one tokenizer and one parser.
type stepper struct {
	t *core.Tokenizer
	p *core.Parser
}

func newStepper() *stepper {
	return &stepper{&core.Tokenizer{}, core.NewParser(&core.ParserOptions{CapturePositions: true})}
}

// pulled is a stream of tokens made when they are asked for.
type pulled struct {
	*core.ArrayTokenStream
	t     *core.Tokenizer
	ahead func() bool // whether to tokenize further than needed
}

func (s *pulled) pull() {
	for !s.t.End() && (s.ArrayTokenStream.End() || s.ahead()) {
		if t := s.t.Next(); t != nil {
			s.Emit(*t)
		}
	}
}
func (s *pulled) End() bool {
	s.pull()
	return s.ArrayTokenStream.End()
}
func (s *pulled) Next() core.Token {
	s.pull()
	return s.ArrayTokenStream.Next()
}
func (s *pulled) Current() core.Token {
	s.pull()
	return s.ArrayTokenStream.Current()
}

// read reads a text; give makes it give up after so many tokens (0: never);
// mode 0 tokenizes first, mode 1 makes tokens when they are asked for, mode 2
// some of them ahead of time.
func (s *stepper) read(r *Run, text string, give, mode int) reading {
	return guardedReading(r, func() reading {
		in := core.NewStringStream(text)
		s.t.Begin(in)
		tokens := core.NewArrayTokenStream([]core.Token{}, in.Source())
		var out core.TokenStream = tokens
		switch mode {
		case 0:
			for !s.t.End() {
				if t := s.t.Next(); t != nil {
					out.Emit(*t)
				}
			}
		case 1:
			out = &pulled{tokens, s.t, func() bool { return false }}
		case 2:
			out = &pulled{tokens, s.t, func() bool { return r.C.Is(rt.SchedS, 2) }}
		}
		s.p.Begin(out)
		for n := 0; !s.p.End(); n++ {
			if give > 0 && n >= give {
				return reading{msg: "given up"}
			}
			if res := s.p.Next(); !res.Success {
				return reading{status: model.Rejected, msg: res.Message}
			}
		}
		return closing(s.p)
	})
}

// texts

var lexemes = []string{
	"a", "b", "emit", "set", "x", "1", "0.5", "tick", "EOF", "é", "日", " ", " ", " ", "  ", "\t", "\r", "\f", "\n", "\n", ";", "; ",
	"(", ")", "(", ")", "[", "]", "[", "]", "{", "}", "{", "}", "\"", "\"", "\"\"", "\"\"\"", "\"\"\"\"", "$", "$", "$$", "$*", "*", "#", "##", "#{", "}#", "##{", "}##",
	"\\", "\\\n", "\\\n  ", "\\n", "\\x41", "\\x", "\\u", "\\u263a", "\\U0001f600", "\\101", "\\8", "\\\"", "\\$", "\\\\", "\\[", "\\#", "\\é",
	"${", "$(", "$[", "$a", "$a(", "$a[", "${a b}", "$*[", "$*(", "\"\"EOF\n", "\nEOF\"\"", " EOF\"\"", "# c\n", "#{ c }#", "[idem x]", "(a b)", "{a b}", "\"a $b\"", "a$b", "a[idem c]d",
	"\x00", "\xff", "\xc3", "\u00a0", "\u2028",
}

func lexicalSoup(r *Run, n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(lexemes[r.N(len(lexemes))])
	}
	return b.String()
}

// wellFormed writes a text of nested delimited pieces.
func wellFormed(r *Run, d int) string {
	var b strings.Builder
	for i, n := 0, 1+r.N(5); i < n; i++ {
		if d > 3 {
			b.WriteString("a ")
			continue
		}
		switch r.N(16) {
		case 0:
			b.WriteString("(" + wellFormed(r, d+1) + ")")
		case 1:
			b.WriteString("{" + wellFormed(r, d+1) + "}")
		case 2:
			b.WriteString("[" + wellFormed(r, d+1) + "]")
		case 3:
			b.WriteString("\"" + strings.ReplaceAll(wellFormed(r, d+1), "\"", "") + "\"")
		case 4:
			b.WriteString("\"\"\"" + lexicalSoup(r, r.N(4)) + "\"\"\"")
		case 5:
			b.WriteString("\"\"EOF\n" + lexicalSoup(r, r.N(6)) + "\n" + strings.Repeat(" ", r.N(4)) + "EOF\"\"")
		case 6:
			b.WriteString("#{" + wellFormed(r, d+1) + "}#")
		case 7:
			b.WriteString("# " + lexicalSoup(r, r.N(4)) + "\n")
		case 8:
			b.WriteString("$" + []string{"", "$", "*", "*$"}[r.N(4)] + []string{"a", "{a}", "(a b)", "[idem a]"}[r.N(4)] + []string{"", "", "(k)", "[0]", "{sel}"}[r.N(5)])
		case 9:
			b.WriteString(lexemes[r.N(len(lexemes))])
		case 10:
			b.WriteString("; ")
		case 11:
			b.WriteString("\n")
		default:
			b.WriteString(" " + []string{"a", "bc", "emit x", "set v 1", "1"}[r.N(5)] + " ")
		}
	}
	return b.String()
}

// damage damages a text; other is another text to splice with.
func damage(r *Run, text, other string, n int) string {
	F := func(k int) int { return r.C.N(rt.Fault, k) }
	for ; n > 0; n-- {
		l := len(text)
		if l == 0 {
			return text
		}
		i := F(l + 1)
		j := i + F(min(l-i, 12)+1)
		kind := ""
		switch F(10) {
		case 0, 1:
			kind, text = "truncated", text[:i]
		case 2:
			kind, text = "range lost", text[:i]+text[j:]
		case 3:
			kind, text = "range duplicated", text[:j]+text[i:j]+text[j:]
		case 4:
			k := j + F(min(l-j, 12)+1)
			kind, text = "ranges swapped", text[:i]+text[j:k]+text[i:j]+text[k:]
		case 5:
			if i == l {
				continue
			}
			kind, text = "byte replaced", text[:i]+string("(){}[]\"$;*#\\\n aé"[F(16)])+text[i+1:]
		case 6:
			kind, text = "fragment inserted", text[:i]+lexemes[F(len(lexemes))]+text[i:]
		case 7:
			if i == l {
				continue
			}
			kind, text = "bit flipped", text[:i]+string([]byte{text[i] ^ 1<<F(8)})+text[i+1:]
		case 8:
			k := F(len(other) + 1)
			kind, text = "torn with another text", text[:i]+other[k:]
		case 9:
			kind, text = "tail overwritten with zeros", text[:i]+strings.Repeat("\x00", min(l-i, 8))
		}
		r.count("fault: text: " + kind)
		r.logf("    fault: text %s at %d", kind, i)
	}
	return text
}

func commonPrefix(a, b string) int {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	return i
}
func offsetOf(text string, at model.At) int {
	i := 0
	for l := 0; l < at.Line; l++ {
		i += strings.IndexByte(text[i:], '\n') + 1
	}
	return i + at.Col
}

const health = `set hl (); loop hi hv [list (1 2 3)] {set hl ($*hl $hv); if [$hi == 1] {continue}}
proc hp {a (?b 7)} {return ($a $b)}
emit H $hl [hp 1] [catch {error e} error m {idem c-$m}] [while {list $hl length; false} {}] "a[list $hl length]b"`

const healthy = `"H" ("1" "2" "3") ("1" "7") "c-e" nil "a3b"`

var prefix = "import host (" + strings.Join(hostNames, " ") + ")\n"

func damaged(r *Run) *Violation {
	kind := r.N(8)
	steps := newStepper()
	check := func(what, text string) (*model.SScript, model.Status, *Violation) {
		ref, st, odd := model.Read(text)
		want := reading{status: st}
		if ref != nil {
			want.dump = ref.String()
		}
		r.count("texts " + st.String())
		got := readAtOnce(r, text)
		r.state(what, st.String(), want.dump)
		if got.crash != "" || !want.same(got, !odd) {
			return nil, 0, fail("reading", "%s %q: %s expected, got %s", what, text, want, got)
		}
		for k := 0; k < 2; k++ {
			give := 0
			if r.C.Is(rt.Fault, 4) {
				give = 1 + r.C.N(rt.Fault, 20)
				r.count("fault: reading given up halfway")
			}
			mode := r.C.N(rt.SchedS, 3)
			piece := steps.read(r, text, give, mode)
			if piece.crash != "" {
				return nil, 0, fail("stepwise", "%s %q: reading step by step: %s", what, text, piece)
			}
			if give == 0 && !got.same(piece, true) {
				return nil, 0, fail("stepwise", "%s %q: %s expected, got %s", what, text, got, piece)
			}
		}
		return ref, st, nil
	}
	if kind < 4 {
		// reading alone
		var pool []string
		for i, n := 0, 3+r.N(4); i < n; i++ {
			t := ""
			switch r.N(4) {
			case 0:
				t = lexicalSoup(r, 1+r.N(14))
			case 1, 2:
				t = wellFormed(r, 0)
			case 3:
				u := NewSoup(r)
				u.left = 10
				t = u.Script(1 + r.N(3))
			}
			pool = append(pool, t)
			n := r.C.N(rt.Fault, 4)
			t = damage(r, t, pool[r.N(len(pool))], n)
			r.logf("text %q", t)
			if _, _, v := check("text", t); v != nil {
				return v
			}
			if n > 0 {
				r.Nontrivial = true
			}
		}
		return nil
	}
	return damagedRun(r, kind, check)
}

// damagedRun runs damaged texts through one of the routes that evaluate texts.
func damagedRun(r *Run, kind int, check func(what, text string) (*model.SScript, model.Status, *Violation)) *Violation {
	p := NewPair(r, TickProfile{OK: 1}, false, false)
	defer p.m.Close()
	p.m.Max = 3000
	if kind != 7 {
		a, v := p.Start(0, Prelude())
		if v == nil {
			v = p.Step(a, nil)
		}
		if v != nil {
			return v
		}
	}
	p.w.prof = TickProfile{OK: 8, Yield: 2, Error: 1}
	g := NewG(r, map[string]int{"yield": 3})
	g.budget = 40
	var script *model.Script
	text := ""
	if kind == 7 || r.Is(4) {
		u := NewSoup(r)
		u.left = 14
		u.CLI = kind == 7 && r.Is(2)
		text = u.Script(1 + r.N(4))
	} else {
		script = g.Body(rootPlace(), 2+r.N(4)).Clone()
		text = model.Render(script, model.Style{Newlines: true})
	}
	whole := text
	other := text
	if r.Is(2) {
		other = wellFormed(r, 0)
	}
	n := r.C.N(rt.Fault, 3)
	if n == 2 {
		n = 1
	}
	text = damage(r, text, other, n)
	if n > 0 {
		r.Nontrivial = true
	}
	if kind == 7 {
		return damagedCLI(r, text, check)
	}
	route := kind - 4 // 0 straight, 1 eval of parse, 2 module
	label := []string{"script", "parsed string", "module file"}[route]
	run := text
	if route == 2 {
		run = prefix + text
	}
	r.logf("%s:\n%s\n  damaged:\n%s", label, indent(whole), indent(run))
	ref, st, v := check(label, run)
	if v != nil {
		return v
	}
	r.count("damaged " + label + " " + st.String())
	// the sentences before the damage, in the model
	var mp *model.Proc
	if script != nil && route < 2 && st == model.Accepted && ref.Sound() {
		orig, ost, _ := model.Read(whole)
		if ost != model.Accepted || len(orig.Sents) != len(script.Sents) {
			return fail("rendering", "%q does not read back", whole)
		}
		d := commonPrefix(whole, text)
		k := 0
		for k+1 < len(orig.Sents) && offsetOf(whole, orig.Sents[k+1].At) <= d {
			k++
		}
		if whole == text {
			k = len(orig.Sents)
		}
		if k > 0 {
			pre := &model.Script{Sents: script.Sents[:k]}
			mp = p.m.NewScript(pre.Clone())
			r.count("prefixes run in the model")
		}
	}
	before := p.s.Vars()
	evs := len(p.s.Ev)
	start := run
	switch route {
	case 1:
		p.s.Scope.Context.Variables["source"] = core.STR(run)
		start = "eval [parse $source]"
		before = p.s.Vars()
	case 2:
		machine(map[string]*simos.Node{"/sim/m.helena": {Data: []byte(run)}}, "/sim")
		start = "import m.helena"
	}
	r.Ctl.Grant(soupLimit)
	rp, res := p.s.Start(start)
	if res.Crash != "" {
		return fail("crash", "%s %q: %s: %s", label, run, res.Code, res.Crash)
	}
	if route == 0 && (res.Code == "rejected") != (st != model.Accepted) {
		return fail("acceptance", "%s %q is %s, got %s %s", label, run, st, res.Code, res.Text)
	}
	answered := func(why string, o Out) *Violation {
		if o.Crash != "" || o.Code != "error" {
			return fail("answer", "%s %q is %s, got %s %s %s", label, run, why, o.Code, o.Text, o.Crash)
		}
		if len(p.s.Ev) != evs {
			return fail("half run", "%s %q is %s, but ran: %v", label, run, why, p.s.Ev[evs:])
		}
		if now := p.s.Vars(); now != before {
			return fail("half run", "%s %q is %s, but changed variables: %s, were %s", label, run, why, now, before)
		}
		return nil
	}
	skip := false
	if rp != nil {
		r.Ctl.Grant(soupLimit)
		o := rp.Step(nil)
		if o.Code == "hang" {
			skip = true
		} else if st != model.Accepted {
			if v := answered(st.String(), o); v != nil {
				return v
			}
		} else if !ref.Sound() {
			if v := answered("of unsound structure", o); v != nil {
				return v
			}
		}
		if o.Crash != "" && !skip {
			return fail("crash", "%s %q: %s: %s", label, run, o.Code, o.Crash)
		}
		mev := p.ev
		steps := 0
		for !skip {
			// lockstep over what precedes the damage
			if mp != nil {
				mr := mp.Step(nil)
				if v := prefixOf(p, mr, o, mev, evs); v != nil {
					return v
				}
				if mr.Code != model.YIELD {
					mp = nil
				}
			}
			r.logf("    -> %s %s", o.Code, o.Text)
			if o.Code != "yield" || steps > 30 {
				break
			}
			steps++
			r.Ctl.Grant(soupLimit)
			o = rp.Step(nil)
			if o.Code == "hang" {
				skip = true
			} else if o.Crash != "" {
				return fail("crash", "%s %q: %s: %s", label, run, o.Code, o.Crash)
			}
		}
	}
	if skip {
		r.Skip = true
		r.count("discarded: too long")
		return nil
	}
	// the interpreter goes on working
	s := p.s
	if script == nil {
		// any command may have been redefined
		s = NewSys(p.w, "/sim", false)
	}
	n = len(s.Ev)
	r.Ctl.Grant(soupLimit)
	hp, res := s.Start(health)
	if hp == nil {
		return fail("health", "afterwards a script is %s %s %s", res.Code, res.Text, res.Crash)
	}
	o := hp.Step(nil)
	if o.Code != "ok" || len(s.Ev) != n+1 || !strings.HasPrefix(s.Ev[n], healthy) {
		return fail("health", "after %s %q a script gives %s %s %s %v", label, run, o.Code, o.Text, o.Crash, s.Ev[n:])
	}
	return nil
}

// prefixOf compares a step of the sentences before the damage.
func prefixOf(p *Pair, mr model.Res, o Out, mev, rev int) *Violation {
	m, r := p.h.Ev[mev:], p.s.Ev[rev:]
	for i, e := range m {
		if i >= len(r) || r[i] != e {
			return fail("prefix", "before the damage: event %s expected, got %v", e, r[min(i, len(r)):])
		}
	}
	if mr.Code == model.OK {
		return nil
	}
	if o.Code != mr.Code.String() || len(r) != len(m) {
		return fail("prefix", "before the damage: %s %s expected, got %s %s and %v", mr.Code, model.Show(mr.V), o.Code, o.Text, r[len(m):])
	}
	switch mr.Code {
	case model.RETURN, model.YIELD, model.ERROR:
		if o.Text != model.Show(mr.V) {
			return fail("prefix", "before the damage: %s %s expected, got %s", mr.Code, model.Show(mr.V), o.Text)
		}
	}
	p.r.count("steps compared before the damage")
	return nil
}

// damagedCLI gives a damaged file to the command line tool.
func damagedCLI(r *Run, text string, check func(what, text string) (*model.SScript, model.Status, *Violation)) *Violation {
	host := r.Is(2)
	run := text
	if host {
		run = "load native/host host; " + prefix + text
	}
	r.logf("file:\n%s", indent(run))
	ref, st, v := check("file", run)
	if v != nil {
		return v
	}
	r.count("damaged file given to the tool " + st.String())
	sound := st == model.Accepted && ref.Sound()
	machine(map[string]*simos.Node{"/sim/f.helena": {Data: []byte(run)}, "/sim/a.lna": {Data: []byte("emit a")}}, "/sim")
	w := NewWorld(r, soupTick)
	in := cliHost(w)
	simos.Args = []string{"helena", "/sim/f.helena"}
	r.Ctl.Grant(soupLimit)
	o := safely(func() Out { cli.Cli(); return Out{Code: "returned"} })
	out, err := simos.S.Out.String(), simos.S.Err.String()
	r.logf("    -> %s %s out %q err %q", o.Code, o.Text, out, err)
	if o.Code == "hang" {
		r.Skip = true
		return nil
	}
	if o.Code != "exit" {
		return fail("crash", "file %q: %s: %s", run, o.Code, o.Crash)
	}
	if !sound {
		if o.Text == "0" && out != "" || err == "" || len(in.Ev) > 0 {
			return fail("answer", "file %q is %s, sound %v: status %s, output %q, errors %q, events %v", run, st, sound, o.Text, out, err, in.Ev)
		}
	}
	return nil
}

// cliHost puts the host commands at the disposal of the command line tool.
func cliHost(w *World) *Sys {
	in := NewSys(w, "/sim", false)
	cli.StaticLoad("native/host", in.hostModule)
	return in
}

func init() {
	register(&Prop{ID: "P11", Quick: 20000, Deep: 2000000, Real: realAll + ", cli", Stub: stubAll,
		Rule: "runs with a different sequence of (text read, outcome), counting only runs in which a text was damaged",
		Run:  damaged})
}
