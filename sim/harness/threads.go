package main

import (
	"fmt"
	"helena/core"
	"helena/native/go_regexp"
	"helena/picol_dialect"
	"helena/verifsim/model"
	"helena/verifsim/rt"
	"strings"
)

// job is what one interpreter is given to do: scripts, and the values its
// suspended activities are resumed with, in order.
type job struct {
	trace  bool
	texts  []string
	resume []core.Value // values delivered at suspensions, cyclically
	pick   []int        // which suspended activity goes on, cyclically
	limit  int
	world  *World
	late   bool // scripts are started while others are suspended
	picol  bool // the scripts are Picol scripts
}

// record is what was observed of a job.
type record struct {
	Out []string
	err any
}

// do carries out a job on a fresh interpreter.
func (j *job) do() *record {
	if j.picol {
		return j.doPicol()
	}
	rec := &record{}
	in := NewSys(j.world, "/sim", j.trace)
	in.Scope.RegisterNamedCommand("regexp", go_regexp.RegexpCmd{})
	note := func(id int, o Out) {
		s := fmt.Sprintf("script %d: %s %s", id, o.Code, o.Text)
		if o.Crash != "" {
			s += " " + o.Crash
		}
		for _, t := range o.Trace {
			s += "\n      at " + t
		}
		rec.Out = append(rec.Out, s)
	}
	evs := 0
	events := func() {
		for ; evs < len(in.Ev); evs++ {
			rec.Out = append(rec.Out, "  event "+in.Ev[evs])
		}
	}
	type act struct {
		id int
		p  *RProc
	}
	var live []*act
	k, next := 0, 0
	for n := 0; n < j.limit; n++ {
		if next < len(j.texts) && (len(live) == 0 || j.late && n%2 == 0) {
			next++
			p, o := in.Start(j.texts[next-1])
			if o.Code != "ok" {
				note(next, o)
				continue
			}
			a := &act{next, p}
			o = p.Step(nil)
			events()
			note(next, o)
			if o.Code == "yield" {
				live = append(live, a)
			}
			if o.Code == "hang" {
				break
			}
			continue
		}
		if len(live) == 0 {
			break
		}
		i := 0
		if len(j.pick) > 0 {
			i = j.pick[k%len(j.pick)] % len(live)
		}
		var v core.Value
		if len(j.resume) > 0 {
			v = j.resume[k%len(j.resume)]
		}
		k++
		a := live[i]
		o := a.p.Step(v)
		events()
		note(a.id, o)
		if o.Code != "yield" {
			live = append(live[:i:i], live[i+1:]...)
		}
		if o.Code == "hang" {
			break
		}
	}
	rec.Out = append(rec.Out, "variables "+in.Vars())
	return rec
}

// doPicol carries out a job of Picol scripts in scopes of their own, one below
// the other.
func (j *job) doPicol() *record {
	rec := &record{}
	h := &phost{w: j.world, n: map[string]int{}}
	x := &psys{real: picol_dialect.NewPicolScope(nil)}
	picol_dialect.InitPicolCommands(x.real)
	h.host(x.real)
	x.real.Variables["a"], x.real.Variables["b"], x.real.Variables["s"] = core.INT(1), core.STR("2"), core.STR("foo")
	evs := 0
	for i, t := range j.texts {
		if i == 2 {
			x = &psys{real: picol_dialect.NewPicolScope(x.real)}
			x.real.Variables["a"] = core.STR("7")
		}
		o := safely(func() Out {
			ps := parse(t, j.trace, "")
			if !ps.Success {
				return Out{Code: "rejected", Text: ps.Message}
			}
			r := x.real.Evaluator.EvaluateScript(*ps.Script)
			return Out{Code: core.RESULT_CODE_NAME(r), Text: ShowReal(r.Value)}
		})
		for ; evs < len(h.ev); evs++ {
			rec.Out = append(rec.Out, "  event "+h.ev[evs])
		}
		rec.Out = append(rec.Out, fmt.Sprintf("script %d: %s %s %s", i+1, o.Code, o.Text, o.Crash), "  holds "+x.state())
		if o.Code == "hang" {
			break
		}
	}
	return rec
}

// spun reports that the job did not end by itself.
func (rec *record) spun() bool {
	for _, s := range rec.Out {
		if strings.Contains(s, ": hang ") {
			return true
		}
	}
	return false
}
func (rec *record) diff(o *record) string {
	for i := 0; i < len(rec.Out) || i < len(o.Out); i++ {
		a, b := "nothing", "nothing"
		if i < len(rec.Out) {
			a = rec.Out[i]
		}
		if i < len(o.Out) {
			b = o.Out[i]
		}
		if a != b {
			return fmt.Sprintf("%s expected, got %s", a, b)
		}
	}
	return ""
}

// fixedWorld has decisions of its own, drawn from a seed.
func fixedWorld(seed uint64, prof TickProfile) *World {
	r := &Run{C: rt.NewChoices(seed), Stats: Stats{}, quiet: true}
	w := NewWorld(r, prof)
	w.limit = 200
	return w
}

func resumeValues(r *Run, n int) []core.Value {
	out := []core.Value{}
	for i := 0; i < n; i++ {
		switch r.N(10) {
		case 0:
			out = append(out, nil)
		case 1:
			out = append(out, core.STR("bad"))
		case 2:
			out = append(out, core.TRUE)
		case 3:
			out = append(out, core.LIST([]core.Value{core.INT(1), core.STR("z")}))
		case 4:
			out = append(out, core.TUPLE([]core.Value{core.INT(6), core.STR("foo")}))
		default:
			out = append(out, core.INT(int64(r.N(10))))
		}
	}
	return out
}

var soupTick = TickProfile{OK: 8, Yield: 3, Error: 2, Return: 1, Break: 1, Continue: 1}

// drawJob writes a job: programs that mostly make sense, or a soup.
func drawJob(r *Run, id int) *job {
	j := &job{limit: 60, trace: r.Is(3), late: r.Is(2)}
	for i := 0; i < 4; i++ {
		j.pick = append(j.pick, r.N(4))
	}
	j.resume = resumeValues(r, 5)
	if r.Is(6) {
		j.picol = true
		g := &pgen{r: r}
		pl := &pplace{vars: []string{"a", "b", "s"}}
		for i, n := 0, 2+r.N(3); i < n; i++ {
			g.budget = 14
			if s := model.Scr(g.body(pl, 1+r.N(4))...); len(s.Sents) > 0 {
				j.texts = append(j.texts, model.Render(s, model.Style{Newlines: true}))
			}
		}
		r.count("Picol interpreters")
		return j
	}
	if r.Is(2) {
		u := NewSoup(r)
		u.Regexp = r.Is(2)
		j.texts = append(j.texts, u.Prelude())
		for i, n := 0, 1+r.N(3); i < n; i++ {
			u.left = 25
			j.texts = append(j.texts, u.Script(1+r.N(4)))
		}
	} else {
		g := NewG(r, map[string]int{"yield": 5, "steps": 4, "*def": 8, "call": 8, "*coroutine": 4, "co": 6, "multiset": 4})
		g.Slip = 60
		place := rootPlace()
		j.texts = append(j.texts, model.Render(Prelude(), model.Style{Newlines: true}))
		for i, n := 0, 1+r.N(3); i < n; i++ {
			g.budget = 25
			j.texts = append(j.texts, model.Render(g.Body(place, 1+r.N(3)).Clone(), model.Style{Newlines: true}))
		}
	}
	return j
}

// parallel is the simulation of P07: interpreters in threads of their own.
func parallel(r *Run) *Violation {
	n := 2 + r.N(3)
	jobs := make([]*job, n)
	seeds := make([]uint64, n)
	same := r.Is(5)
	for i := range jobs {
		if same && i > 0 {
			c := *jobs[0]
			jobs[i] = &c
		} else {
			jobs[i] = drawJob(r, i)
		}
		seeds[i] = uint64(r.C.N(rt.Fault, 1<<30))
	}
	solo := make([]*record, n)
	all := 0
	for i, j := range jobs {
		rt.Begin(&rt.Ctl{C: &rt.Choices{}, Limit: 1 << 60})
		rt.Reset()
		c := &rt.Ctl{C: rt.NewChoices(seeds[i]), Limit: 250_000}
		rt.Begin(c)
		machine(nil, "/sim")
		j.world = fixedWorld(seeds[i], soupTick)
		solo[i] = j.do()
		r.Ctl.Steps += c.Steps
		all += int(c.Steps)
		r.logf("interpreter %d:\n%s", i, indent(strings.Join(j.texts, "\n--\n")))
		r.logf("alone:\n%s", indent(strings.Join(solo[i].Out, "\n")))
		if solo[i].spun() || c.Steps >= c.Limit {
			r.Skip = true
			r.count("discarded: too long")
			return nil
		}
	}
	rt.Begin(&rt.Ctl{C: &rt.Choices{}, Limit: 1 << 60})
	rt.Reset()
	machine(nil, "/sim")
	ctls := make([]*rt.Ctl, n)
	recs := make([]*record, n)
	fs := make([]func(), n)
	for i, j := range jobs {
		ctls[i] = &rt.Ctl{C: rt.NewChoices(uint64(r.C.N(rt.Pool, 1<<30))), Limit: 2_000_000}
		c := *j
		c.world = fixedWorld(seeds[i], soupTick)
		recs[i] = &record{}
		i := i
		fs[i] = func() { *recs[i] = *c.do() }
	}
	races := rt.RaceErrors()
	// the turns cover most of the work
	turns := []int{60, 200, 600, 1500}[r.C.N(rt.SchedS, 4)]
	s, ends := rt.RunThreads(r.C, ctls, fs, 1+all/turns, turns)
	rt.Begin(r.Ctl)
	for _, c := range ctls {
		r.Ctl.Steps += c.Steps
		r.Ctl.PoolGets += c.PoolGets
		r.Ctl.PoolReuse += c.PoolReuse
		r.Ctl.PoolOther += c.PoolOther
		r.Ctl.PoolFresh += c.PoolFresh
	}
	switches := 0
	for i := 1; i < len(s.Trace); i++ {
		if s.Trace[i] != s.Trace[i-1] {
			switches++
		}
	}
	r.Stats["thread switches"] += int64(switches)
	r.Stats["threads"] += int64(n)
	if switches > 2 {
		r.Nontrivial = true
	}
	h := uint64(7)
	for _, t := range s.Trace {
		h = rt.Hash(h, int(t))
	}
	r.state(h)
	r.logf("turns: %s", turnsText(s.Trace))
	if s.Dead {
		return fail("deadlock", "the threads wait for each other")
	}
	for i := range jobs {
		if ends[i] != nil {
			return fail("crash", "interpreter %d: %v", i, ends[i])
		}
		r.logf("interpreter %d in its thread:\n%s", i, indent(strings.Join(recs[i].Out, "\n")))
		if d := solo[i].diff(recs[i]); d != "" {
			return fail("interference", "interpreter %d: %s", i, d)
		}
		for _, o := range recs[i].Out {
			r.state(o)
		}
	}
	if rt.RaceBuild {
		r.count("runs under the race detector")
		if rt.RaceErrors() > races {
			return fail("race", "%d data races between the threads (see standard error)", rt.RaceErrors()-races)
		}
	}
	return nil
}

func turnsText(t []int32) string {
	var b strings.Builder
	for i, x := range t {
		if i > 200 {
			b.WriteString("...")
			break
		}
		fmt.Fprint(&b, x)
	}
	return b.String()
}

func init() {
	register(&Prop{ID: "P07", Quick: 3000, Deep: 100000, Run: parallel, Race: true,
		Rule: "runs with a different schedule of thread turns, counting only runs with more than two switches between threads",
		Real: realAll + "; compiled with the race detector, whose only happens-before edges are those of the stand-ins", Stub: stubAll + ", threads (run one at a time under the seeded schedule)"})
}
