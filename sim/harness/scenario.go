package main

import (
	"fmt"
	"helena/core"
	"helena/verifsim/model"
	"helena/verifsim/rt"
	"sort"
	"strings"
)

// Profile shapes the scenarios of a property.
type Profile struct {
	Weights  map[string]int
	Tick     TickProfile
	TickW    int
	Slip     int
	Trace    int // traces on once in so many runs (0: never)
	Procs    int // activities in progress at once
	Scripts  int // scripts started
	Actions  int
	Abandon  int // once in so many actions an activity is given up (0: never)
	Wrong    int // once in so many resumptions the value is of another kind
	Stmts    int // statements at the top of a script
	Budget   int
	Keep     bool
	NoOrder  bool
	Shuffle  bool
	Epilogue int // health scripts afterwards
	// Extra adds statements of the property's own to a script
	Extra func(g *G, s *gs) []*model.Sentence
	// Setup prepares the surroundings; the script runs before everything else
	Setup func(p *Pair, g *G) *model.Script
}

type activity struct {
	id    int
	m     *model.Proc
	r     *RProc
	done  bool
	last  string
	steps int
	susp  bool
	value string
}

// Pair runs the model and the real interpreter in lockstep.
type Pair struct {
	r     *Run
	w     *World
	h     *mhost
	m     *model.Interp
	s     *Sys
	trace bool
	ev    int
	order bool // events compared in order
}

func NewPair(r *Run, prof TickProfile, trace, keep bool) *Pair {
	w := NewWorld(r, prof)
	h := &mhost{w: w, n: map[string]int{}}
	m := model.NewInterp(h, "/sim")
	m.Max = 4000
	m.TraceOn = trace
	machine(nil, "/sim")
	s := NewSys(w, "/sim", trace)
	s.keepV = keep
	return &Pair{r: r, w: w, h: h, m: m, s: s, trace: trace, order: true}
}

// Start begins a script in both.
func (p *Pair) Start(id int, s *model.Script) (*activity, *Violation) {
	s = s.Clone()
	st := model.Style{Newlines: true}
	if p.r.Is(4) {
		st = layout(p.r, 2) // scripts are split into sentences
	}
	text := model.Render(s, st)
	p.r.logf("[%d] start:\n%s", id, indent(text))
	a := &activity{id: id, m: p.m.NewScript(s)}
	var res Out
	a.r, res = p.s.Start(text)
	if res.Crash != "" {
		return nil, fail("crash", "starting script %d: %s", id, res.Crash)
	}
	if res.Code != "ok" {
		return nil, fail("rejected", "script %d is rejected: %s", id, res.Text)
	}
	return a, nil
}

// Step advances an activity in both with the same value and compares.
func (p *Pair) Step(a *activity, v model.Value) *Violation {
	p.r.logf("[%d] step %s", a.id, model.Show(v))
	mr := a.m.Step(v)
	var rv core.Value
	if v != nil {
		rv = ToReal(v)
	}
	p.r.Ctl.Grant(p.r.P.Limit)
	rr := a.r.Step(rv)
	a.steps++
	if mr.Code == model.YIELD {
		a.susp = true
		p.r.count("suspensions")
	} else {
		a.susp, a.done = false, true
		p.r.count("outcome: " + mr.Code.String())
	}
	return p.compare(a.id, mr, rr)
}

func (p *Pair) compare(id int, mr model.Res, rr Out) *Violation {
	if rr.Crash != "" {
		return fail("crash", "script %d: %s: %s", id, rr.Code, rr.Crash)
	}
	want := mr.Code.String()
	mev, rev := p.h.Ev, p.s.Ev
	new := mev
	if p.ev < len(mev) {
		new = mev[p.ev:]
	} else {
		new = nil
	}
	for _, e := range new {
		p.r.logf("    event %s", e)
	}
	val := ""
	switch mr.Code {
	case model.OK, model.RETURN, model.YIELD, model.ERROR:
		val = model.Show(mr.V)
	}
	p.r.logf("    -> %s %s", want, val)
	if !p.order {
		mev, rev = unordered(mev), unordered(rev)
	}
	if d := diffEvents(mev, rev); d != "" {
		return fail("events", "script %d: %s", id, d)
	}
	p.ev = len(p.h.Ev)
	if rr.Code != want {
		return fail("outcome", "script %d: %s %s expected, got %s %s", id, want, val, rr.Code, rr.Text)
	}
	if val != rr.Text {
		return fail("value", "script %d: %s of %s expected, got %s", id, want, val, rr.Text)
	}
	mv, rv := p.m.Vars(), p.s.Vars()
	if mv != rv {
		return fail("variables", "script %d: variables %s expected, got %s", id, mv, rv)
	}
	if p.trace && mr.Code == model.ERROR {
		if d := diffTrace(mr.Trace, rr.Trace); d != "" {
			return fail("trace", "script %d: %s", id, d)
		}
		p.r.count("error traces compared")
	}
	if what, is := p.s.Changed(); is {
		return fail("changed value", "script %d: %s", id, what)
	}
	p.r.state(want, val, strings.Join(new, "|"), mv)
	return nil
}

// unordered sorts the events made by iterating over an unordered collection.
func unordered(ev []string) []string {
	out := append([]string{}, ev...)
	for i := 0; i < len(out); i++ {
		j := i
		for j < len(out) && strings.HasPrefix(out[j], `"D" `) {
			j++
		}
		sort.Strings(out[i:j])
		if j > i {
			i = j
		}
	}
	return out
}

func diffEvents(m, r []string) string {
	for i := 0; i < len(m) || i < len(r); i++ {
		a, b := "nothing", "nothing"
		if i < len(m) {
			a = m[i]
		}
		if i < len(r) {
			b = r[i]
		}
		if a != b {
			return fmt.Sprintf("event %d: %s expected, got %s", i+1, a, b)
		}
	}
	return ""
}

func showLevel(l model.Level) string {
	s := "?"
	if !l.Unknown {
		s = model.ShowAll(l.Args)
	}
	if l.AnyPos {
		return "? " + s
	}
	if l.NoPos {
		return "- " + s
	}
	if l.File != "" {
		return fmt.Sprintf("%s:%d:%d %s", l.File, l.Line, l.Col, s)
	}
	return fmt.Sprintf("%d:%d %s", l.Line, l.Col, s)
}

// diffTrace compares traces: levels that list no command are not judged.
func diffTrace(mt []model.Level, rt []string) string {
	m, r := []model.Level{}, []string{}
	for _, l := range mt {
		if len(l.Args) > 0 || l.Unknown {
			m = append(m, l)
		}
	}
	for _, l := range rt {
		if !strings.HasSuffix(l, " ") {
			r = append(r, l)
		}
	}
	all := func() string {
		w := []string{}
		for _, l := range m {
			w = append(w, showLevel(l))
		}
		return "trace\n      " + strings.Join(w, "\n      ") + "\n    expected, got\n      " + strings.Join(r, "\n      ")
	}
	if len(m) != len(r) {
		return all()
	}
	for i, l := range m {
		want, got := strings.SplitN(showLevel(l), " ", 2), strings.SplitN(r[i], " ", 2)
		if !l.AnyPos && want[0] != got[0] || !l.Unknown && want[1] != got[1] {
			return all()
		}
	}
	return ""
}
func indent(s string) string { return "      " + strings.ReplaceAll(s, "\n", "\n      ") }

// value draws a value to resume with.
func (p *Pair) value(wrong int) model.Value {
	r := p.r
	if wrong > 0 && r.C.Is(rt.Fault, wrong) {
		r.count("fault: resumed with a value of another kind")
		switch r.C.N(rt.Fault, 8) {
		case 0:
			return model.String("bad")
		case 1:
			return model.Nil{}
		case 2:
			return model.List{V: []model.Value{model.Int(1), model.String("z")}}
		case 3:
			return model.Dict{M: map[string]model.Value{"p": model.Int(5)}}
		case 4:
			return model.Tuple{V: []model.Value{model.Int(6), model.Int(7)}}
		case 5:
			return model.Bool(true)
		case 6:
			return model.String("false")
		case 7:
			return model.Real(2.5)
		}
	}
	if r.C.Is(rt.SchedS, 5) {
		return nil // deliver the yielded value back
	}
	return model.Int(r.C.N(rt.SchedS, 10))
}

// scenario runs the history of a property.
func scenario(r *Run, pf *Profile) *Violation {
	trace := pf.Trace > 0 && r.N(pf.Trace) == pf.Trace-1
	if pf.Shuffle {
		r.Ctl.Maps = rt.Shuffled
	}
	p := NewPair(r, pf.Tick, trace, pf.Keep)
	defer p.m.Close()
	p.order = !pf.NoOrder
	if trace {
		r.count("runs with error traces")
	}
	// prelude
	ok := p.w.prof
	p.w.prof = TickProfile{OK: 1}
	a, v := p.Start(0, Prelude())
	if v == nil {
		v = p.Step(a, nil)
	}
	g := NewG(r, pf.Weights)
	if pf.Setup != nil && v == nil {
		if a, v = p.Start(0, pf.Setup(p, g)); v == nil {
			v = p.Step(a, nil)
		}
	}
	p.w.prof = ok
	if v != nil {
		return v
	}
	g.Slip, g.NoDictOrder = pf.Slip, pf.NoOrder
	if pf.TickW > 0 {
		g.tickW = pf.TickW - 1
	}
	if pf.Budget > 0 {
		g.budget = pf.Budget
	}
	place := rootPlace()
	var live, ended []*activity
	started := 0
	next := func() *Violation {
		started++
		if g.budget < 12 {
			g.budget = 12
		}
		s := &model.Script{}
		if pf.Extra != nil && r.Is(2) {
			s.Sents = append(s.Sents, pf.Extra(g, place)...)
		}
		s.Sents = append(s.Sents, g.Body(place, 1+r.N(pf.Stmts)).Sents...)
		if pf.Extra != nil && r.Is(2) {
			s.Sents = append(s.Sents, pf.Extra(g, place)...)
		}
		a, v := p.Start(started, s)
		if v != nil {
			return v
		}
		live = append(live, a)
		return nil
	}
	act := func(a *activity, v model.Value) *Violation {
		if x := p.Step(a, v); x != nil {
			return x
		}
		if a.done {
			for i, b := range live {
				if a == b {
					live = append(live[:i:i], live[i+1:]...)
				}
			}
			ended = append(ended, a)
		} else {
			r.Nontrivial = true
		}
		return nil
	}
	for n := 0; n < pf.Actions; n++ {
		if len(live) == 0 && started >= pf.Scripts {
			break
		}
		k := r.C.N(rt.SchedS, 8)
		if started < pf.Scripts && (len(live) == 0 || (len(live) < pf.Procs && k < 2)) {
			if v := next(); v != nil {
				return v
			}
			if v := act(live[len(live)-1], nil); v != nil {
				return v
			}
			continue
		}
		if len(live) == 0 {
			break
		}
		a := live[r.C.N(rt.SchedS, len(live))]
		if pf.Abandon > 0 && r.C.Is(rt.Fault, pf.Abandon) {
			r.logf("[%d] abandoned", a.id)
			r.count("fault: script abandoned while suspended")
			a.m.Kill()
			for i, b := range live {
				if a == b {
					live = append(live[:i:i], live[i+1:]...)
				}
			}
			continue
		}
		if len(ended) > 0 && r.C.Is(rt.SchedS, 16) {
			e := ended[r.C.N(rt.SchedS, len(ended))]
			r.count("finished script run again")
			mr := e.m.Step(nil)
			r.logf("[%d] run again after its end", e.id)
			if v := p.compare(e.id, mr, e.r.Step(nil)); v != nil {
				return v
			}
			continue
		}
		if v := act(a, p.value(pf.Wrong)); v != nil {
			return v
		}
	}
	for k, n := range g.uses {
		r.Stats["used: "+k] += n
	}
	if len(live) > 0 {
		r.Stats["scripts left suspended"] += int64(len(live))
	}
	if p.w.total > 0 {
		r.Nontrivial = true
	}
	// faults stop: scripts run afterwards behave
	p.w.prof = TickProfile{OK: 1}
	for i := 0; i < pf.Epilogue; i++ {
		g := NewG(r, map[string]int{"yield": 0, "error": 0, "steps": 0})
		g.tickW = 0
		g.labels = 9000 + 100*i
		g.vars = 9000 + 100*i
		g.NoDictOrder = pf.NoOrder
		g.budget = 14
		b := g.Body(&gs{}, 4)
		if g.Is(2) {
			b.Sents = append(g.begins(), b.Sents...)
		}
		a, v := p.Start(900+i, b)
		if v != nil {
			return v
		}
		for k := 0; !a.done; k++ {
			if k > 200 {
				r.Skip = true
				return nil
			}
			if v := p.Step(a, nil); v != nil {
				return v
			}
		}
		r.count("health scripts after the faults")
	}
	return nil
}
