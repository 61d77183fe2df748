package main

import (
	"fmt"
	"helena/core"
	"helena/picol_dialect"
	"helena/verifsim/model"
	"helena/verifsim/rt"
	simos "helena/verifsim/simos"
	"io"
	"os"
	"runtime"
	"strings"
	"syscall"
)

// A long history (P21): the same turn is carried out again and again, by scripts
// started one after another or by one activity that never ends, with the same
// failures, interruptions, suspensions and abandonments each time. Whatever the
// turn does, the next one costs the same: the work done, the memory in use and
// the depth of the stack do not grow with the number of turns.

const (
	historyTurns = 256  // turns of a run
	historyMore  = 1024 // where something seems to grow
)

type history struct {
	r       *Run
	in      *Sys
	seed    uint64
	turns   int
	steps   []int64
	depth   []int
	pc      []uintptr
	heap    [6]runtime.MemStats
	at      [6]int
	heaps   int
	ctl     *rt.Ctl
	k       int // values delivered since the turn began
	spent   int64
	stopped bool
	sums    string
	reset   func() // at the end of each turn
}

func (h *history) fresh() {
	h.spent += h.ctl.Steps
	h.ctl = &rt.Ctl{C: rt.NewChoices(h.seed), Limit: 1_000_000, Maps: rt.Sorted, Reuse: true}
	rt.Begin(h.ctl)
}

// mark is the end of a turn.
func (h *history) mark() {
	if h.stopped {
		return
	}
	h.depth = append(h.depth, runtime.Callers(1, h.pc))
	h.steps = append(h.steps, h.ctl.Steps)
	h.fresh()
	h.turns++
	h.k = 0
	if h.reset != nil {
		h.reset()
	}
	if h.in != nil {
		h.in.Ev = h.in.Ev[:0]
		clear(h.in.n)
	}
	switch h.turns {
	case 32, 64, 128, historyTurns, 512, historyMore:
		runtime.GC()
		runtime.ReadMemStats(&h.heap[h.heaps])
		h.at[h.heaps] = h.turns
		h.heaps++
		if h.turns >= historyTurns && (h.turns == historyMore || h.verdict() == nil) {
			h.stopped = true
		}
	}
}

// verdict reports what grew with the number of turns all along.
func (h *history) verdict() *Violation {
	at := h.at[:h.heaps]
	var bytes, objects, depth, steps []int64
	for i, n := range at {
		m := &h.heap[i]
		bytes, objects = append(bytes, int64(m.HeapAlloc)), append(objects, int64(m.HeapObjects))
		// the second half of the turns up to there
		d, s := 0, int64(0)
		for j := n / 2; j < n; j++ {
			d = max(d, h.depth[j])
			s += h.steps[j]
		}
		depth, steps = append(depth, int64(d)), append(steps, s/int64(n/2))
	}
	h.sums = fmt.Sprintf("after %v turns: %v bytes, %v objects in use, stack %v, work per turn %v", at, bytes, objects, depth, steps)
	if os.Getenv("SIM_HISTORY") != "" {
		least := func(x []int64) float64 {
			m := 1e9
			for i := 1; i < len(x); i++ {
				m = min(m, float64(x[i]-x[i-1])/float64(at[i]-at[i-1]))
			}
			return m
		}
		f, _ := os.OpenFile(os.Getenv("SIM_HISTORY"), os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644)
		defer f.Close()
		fmt.Fprintf(f, "growth %.3f %.3f %.3f %.3f %d\n", least(bytes), least(objects), least(depth), least(steps), len(at))
	}
	grows := func(x []int64, per float64) bool {
		for i := 1; i < len(x); i++ {
			if float64(x[i]-x[i-1]) < per*float64(at[i]-at[i-1]) {
				return false
			}
		}
		return true
	}
	switch {
	case grows(objects, 0.7):
		return fail("memory", "after %v turns %v objects are in use", at, objects)
	case grows(bytes, 4):
		return fail("memory", "after %v turns %v bytes are in use", at, bytes)
	case grows(depth, 0.2):
		return fail("stack", "up to %v turns the stack is %v calls deep", at, depth)
	case grows(steps, 0.3):
		return fail("work", "up to %v turns a turn takes %v scheduling points", at, steps)
	}
	return nil
}

var historyFiles = map[string]string{
	"good":   "set n 0; proc m () {set m [+ 0 1]; idem $m}; export m",
	"bad":    "proc m () {idem 1}; export m; error bad",
	"torn":   "proc m () {idem 1",
	"late":   "import good; import bad; export m",
	"c1":     "import c2",
	"c2":     "import c1",
	"yields": "yield 1",
}

var historyImports = []string{
	"[import good] import m; m", "catch {import bad} error z {}", "catch {import torn} error z {}", "catch {import late} error z {}",
	"catch {import c1} error z {}", "catch {import none} error z {}", "catch {import gone} error z {}", "catch {import dir} error z {}", "catch {import yields} error z {}",
	"module mo {proc m () {idem 1}; export m}; [[mo] import m]; m", "catch {module mo {import good; export m; error z}} error z {}",
	"import good (m); m", "catch {import good (none)} error z {}",
	"catch {eval {parse \"a \\{\"}} error z {}", "[closure (x) {yield $x}] 2", "[coroutine {import good; yield 1; error bad}] wait",
	"eval {[+ 1 2]; idem [list (1 2 3) sort]}", "set k [argspec (a ?b *c)]; argspec $k set (1 2 3)",
}

func newHistory(r *Run) *history {
	return &history{r: r, ctl: r.Ctl, pc: make([]uintptr, 8192),
		steps: make([]int64, 0, historyMore), depth: make([]int, 0, historyMore), seed: uint64(r.C.N(rt.Fault, 1<<30))}
}

// conclude judges a history once enough turns are over.
func (h *history) conclude(text string) *Violation {
	r := h.r
	rt.Begin(r.Ctl)
	r.Ctl.Steps += h.spent
	if !h.stopped {
		r.Skip = true
		r.count("discarded: too long")
		return nil
	}
	r.Stats["turns"] += int64(h.turns)
	r.Nontrivial = true
	r.state(text, fmt.Sprint(h.steps[historyTurns/2-1]))
	v := h.verdict()
	r.logf("%s", h.sums)
	return v
}

// picolHistory is a long history of Picol scripts.
func picolHistory(r *Run, h *history) *Violation {
	r.count("Picol histories")
	machine(nil, "/sim")
	w := fixedWorld(h.seed, TickProfile{OK: 8, Error: 2, Return: 2, Break: 2, Continue: 2})
	ph := &phost{r: r, w: w, n: map[string]int{}}
	root := picol_dialect.NewPicolScope(nil)
	picol_dialect.InitPicolCommands(root)
	ph.host(root)
	root.Commands["mark"] = hostCmd(func([]core.Value) core.Result {
		h.mark()
		if h.stopped {
			return core.ERROR("enough")
		}
		return core.OK(core.NIL)
	})
	start := func(s *picol_dialect.PicolScope) {
		clear(s.Variables)
		s.Variables["a"], s.Variables["b"], s.Variables["c"], s.Variables["s"] = core.INT(1), core.STR("2"), core.REAL(1.5), core.STR("foo")
	}
	h.reset = func() {
		ph.ev, ph.kept = ph.ev[:0], ph.kept[:0]
		clear(ph.n)
	}
	h.reset()
	g := &pgen{r: r, budget: 14 + r.N(14)}
	way := r.N(5)
	pl := &pplace{vars: []string{"a", "b", "c", "s"}, fn: way == 1}
	body := model.Render(model.Scr(g.body(pl, 1+r.N(5))...), model.Style{Newlines: true})
	vars := "set a 1; set b 2; set c 1.5; set s foo\n"
	again := r.Is(2)
	text := body
	switch way {
	case 1:
		text = "proc turn {} {" + vars + body + "}\nturn"
	case 2:
		text = "proc turn {{a 1} {b 2} {c 1.5} {s foo} args} {\n" + body + "}\nwhile 1 {for {set i 0} {< $i 1} {incr i} {turn}; mark}"
	case 3:
		text = "proc turn {} {" + vars + body + "}\nfor {} {== 1 1} {mark} {turn}"
	}
	r.logf("a turn:\n%s", indent(text))
	ps := parse(text, r.Is(2), "")
	if !ps.Success {
		return fail("rejected", "script not accepted: %s", ps.Message)
	}
	h.fresh()
	for n := 0; n < historyMore+1 && !h.stopped; n++ {
		scope := root
		if way == 4 {
			scope = picol_dialect.NewPicolScope(root)
		}
		start(scope)
		if !again && n > 0 {
			ps = parse(text, false, "")
		}
		t := h.turns
		o := safely(func() Out {
			return Out{Code: core.RESULT_CODE_NAME(scope.Evaluator.EvaluateScript(*ps.Script))}
		})
		switch {
		case o.Code == "hang":
			n = historyMore
		case o.Crash != "":
			return fail("crash", "turn %d: %s", h.turns+1, o.Crash)
		case h.turns == t:
			h.mark()
		}
	}
	return h.conclude(text)
}

// toolHistory is a long session of the command line tool.
func toolHistory(r *Run, h *history) *Violation {
	r.count("long sessions of the tool")
	files := map[string]*simos.Node{"/sim/gone": {Err: syscall.EIO}, "/sim/dir": {Dir: true},
		"/sim/a.lna": {Data: []byte("emit a; proc pa () {idem 1}")}}
	for n, t := range historyFiles {
		files["/sim/"+n] = &simos.Node{Data: []byte(t)}
	}
	machine(files, "/sim")
	in := cliHost(fixedWorld(h.seed, soupTick))
	u := NewSoup(r)
	u.CLI = true
	u.left = 14
	body := u.Prelude() + "\n" + u.Script(1+r.N(4))
	if r.Is(2) {
		body = historyImports[r.N(len(historyImports))] + "\n" + body
	}
	if strings.Contains(body, "exit") {
		r.Skip = true
		return nil
	}
	turn := "[scope {\n" + body + "\n}]"
	if _, st, odd := model.Read(turn); st != model.Accepted || odd || model.Waiting(turn) {
		r.Skip = true
		r.count("discarded: the turn is not a script")
		return nil
	}
	first := append([]string{}, loading...)
	first = append(first, "import go:regexp (regexp)", "import go:os (os)", "set rx [regexp Compile (a+)b]")
	lines := []string{}
	extra := []string{"nothing", "idem }", "source a.lna", "source torn", "source gone", "error z", "break", "", "# comment", "idem \\", "list (1 2 3)",
		"picol {set a 1; proc p {x} {+ $x 1}; p $a}", "picol {error z}", "\"unfinished", "text\"", "os ReadFile a.lna", "os ReadFile gone", "regexp FindAllString $rx aabxab -1", "set ry [regexp Compile (a+)(b)]; regexp NumSubexp $ry", "regexp Compile (a", "regexp ReplaceAllString [regexp Compile a.] aabab x", "regexp ReplaceAllStringFunc $rx aab {idem}", "regexp QuoteMeta a.b", "regexp MatchString a.b axb", "idem $rx", "import go:regexp (regexp)", "import go:os (os)", "os MkdirTemp \"\" x", "load native/go_os go:os",
		"set k [argspec (a ?b)]", "proc pa () {idem 2}", "import good", "yield 1", "idem \"\"\"", "\"\"\""}
	for n := r.N(4); n > 0; n-- {
		lines = append(lines, extra[r.N(len(extra))])
	}
	lines = append(lines, "nothing\"]})}]")
	lines = append(lines, strings.Split(turn, "\n")...)
	r.logf("a turn:\n%s", indent(strings.Join(lines, "\n")))
	i := -len(first)
	h.in = in
	h.reset = func() { simos.S.Out.Reset(); simos.S.Err.Reset() }
	n := 0
	h.fresh()
	o := typing(r, func() (string, error) {
		if i < 0 {
			i++
			return first[len(first)+i-1], nil
		}
		if i == len(lines) {
			i = 0
			n++
			h.mark()
		}
		if h.stopped || n > historyMore {
			return "", io.EOF
		}
		i++
		return lines[i-1], nil
	}, nil)
	if o.Crash != "" && o.Code != "hang" {
		return fail("crash", "turn %d: %s", h.turns+1, o.Crash)
	}
	return h.conclude(strings.Join(lines, "\n"))
}

func longHistory(r *Run) *Violation {
	h := newHistory(r)
	switch r.N(8) {
	case 0:
		return picolHistory(r, h)
	case 1, 2:
		return toolHistory(r, h)
	}
	// what one turn does
	trace := r.Is(3)
	var body string
	if r.Is(2) {
		u := NewSoup(r)
		u.left = 12
		body = u.Prelude() + "\n" + u.Script(1+r.N(3))
	} else {
		g := NewG(r, map[string]int{"yield": 4, "steps": 3, "*def": 6, "call": 8, "*coroutine": 5, "co": 6, "multiset": 3, "*catch": 5, "*loop": 5})
		g.Slip = 40
		g.budget = 20
		body = model.Render(Prelude(), model.Style{Newlines: true}) + "\n" + model.Render(g.Body(rootPlace(), 1+r.N(4)).Clone(), model.Style{Newlines: true})
	}
	for i := r.N(4); i > 0; i-- {
		body = historyImports[r.N(len(historyImports))] + "\n" + body
	}
	setup := []string{}
	turn := ""
	switch r.N(6) {
	case 0, 1:
		turn = "[scope {\n" + body + "\n}]"
	case 2:
		setup = append(setup, "proc turn () {\n"+body+"\n}")
		turn = "turn"
	case 3:
		setup = append(setup, "proc turn (?x *y) {\n"+body+"\n}", "alias turns (turn 1 2)")
		turn = "turns 3"
	case 4:
		setup = append(setup, "ensemble turns (x) {proc turn (x) {\n"+body+"\n}}")
		turn = "turns 1 turn"
	default:
		setup = append(setup, "namespace turns {proc turn () {\n"+body+"\n}}", "set turns (turns turn)")
		turn = "$turns"
	}
	guarded := "catch {" + turn + "} error z {} return z {} break {} continue {}"
	forever := []string{"while true ", "while {idem true} ", "while {tick C0 true} ", "loop ", "loop i ", "loop x {idem 1} ", "loop x tick ", "loop i x {tick C1} y $big "}[r.N(8)]
	long := r.N(9)
	text := turn
	switch long {
	case 0, 1:
		text = forever + "{" + guarded + "; mark}"
	case 2:
		setup = append(setup, "set co [coroutine {"+forever+"{"+guarded+"; mark}}]")
		text = "while true {yield [$co wait]}"
	case 3:
		setup = append(setup, "closure again () {"+guarded+"; mark}")
		text = "loop x {idem 1} {again; if [$x > 0] {again}}"
	case 4:
		text = []string{"list $big foreach x {", "loop x $big {", "dict $table foreach x {", "loop (x y) $table {", "loop x $big y (1 2 3) {", "list $big foreach i x {"}[r.N(6)] + guarded + "; mark}"
	case 5:
		text = forever + "{catch {" + guarded + "; mark; break} break {pass} finally {mark}}"
	}
	limit := 2 + r.N(30) // steps until a script is abandoned
	again := r.Is(2)     // the program compiled once
	resume := resumeValues(r, 5)
	r.logf("a turn:\n%s", indent(strings.Join(append(setup, text), "\n--\n")))
	files := map[string]*simos.Node{"/sim/gone": {Err: syscall.EIO}, "/sim/dir": {Dir: true}}
	for n, t := range historyFiles {
		files["/sim/"+n] = &simos.Node{Data: []byte(t)}
	}
	machine(files, "/sim")
	in := NewSys(fixedWorld(h.seed, soupTick), "/sim", trace)
	h.in = in
	in.Scope.RegisterNamedCommand("mark", hostCmd(func(a []core.Value) core.Result {
		h.mark()
		if h.stopped {
			return core.ERROR("enough")
		}
		return core.OK(core.NIL)
	}))
	big := make([]core.Value, 400)
	for i := range big {
		big[i] = core.INT(int64(i))
	}
	in.Scope.SetNamedVariable("big", core.LIST(big))
	table := map[string]core.Value{}
	for i := range big {
		table[fmt.Sprint("k", i)] = big[i]
	}
	in.Scope.SetNamedVariable("table", core.DICT(table))
	for _, s := range setup {
		p, o := in.Start(s)
		if o.Code == "ok" {
			o = p.Step(nil)
		}
		if o.Code != "ok" {
			r.Skip = true
			r.count("discarded: the turn is not a script")
			return nil
		}
	}
	h.fresh()
	var prog *core.Program
	outcomes := map[string]bool{}
	for n := 0; n < 40*historyMore && !h.stopped && (h.spent < 60_000_000 || h.turns > historyTurns); n++ {
		var p *RProc
		var o Out
		if again && prog != nil {
			p, o = &RProc{in, in.Scope.PrepareProcess(prog)}, Out{Code: "ok"}
		} else {
			p, o = in.Start(text)
			if again && o.Code == "ok" {
				prog = in.Scope.Compile(*parse(text, trace, "").Script)
			}
		}
		if o.Code != "ok" {
			r.Skip = true
			r.count("discarded: the turn is not a script")
			return nil
		}
		o = p.Step(nil)
		for k := 0; o.Code == "yield" && !h.stopped && (long < 6 || k < limit); k++ {
			if h.k > 300 {
				break
			}
			v := resume[h.k%len(resume)]
			h.k++
			o = p.Step(v)
		}
		if h.k > 300 {
			break
		}
		outcomes[o.Code] = true
		if o.Code == "hang" || o.Crash != "" {
			if o.Code != "hang" {
				return fail("crash", "turn %d: %s", h.turns+1, o.Crash)
			}
			break
		}
		if long >= 6 {
			h.mark()
		}
	}
	for o := range outcomes {
		r.count("turns that ended with: " + o)
	}
	return h.conclude(fmt.Sprint(long, text))
}

func init() {
	register(&Prop{ID: "P21", Quick: 1500, Deep: 40000, Run: longHistory,
		Rule: "runs of 256 turns with different turns",
		Real: realAll + ", picol_dialect, cli and native modules", Stub: stubAll + " (pools keep everything and hand out the latest)"})
}
