package main

import (
	"helena/verifsim/rt"
	"strings"
)

const realAll = "core (tokenizer, parser, compiler, values, errors), helena_dialect (all commands), go_regexp"
const stubAll = "sync.Pool and locks (recycling decided by the simulator), os, fmt output, filepath, map enumeration; host commands emit, tick, steps, keep"

func scen(id string, quick, deep int, rule string, pf *Profile) {
	register(&Prop{ID: id, Quick: quick, Deep: deep, Rule: rule, Real: realAll, Stub: stubAll,
		Run: func(r *Run) *Violation { return scenario(r, pf) }})
}

func init() {
	base := "runs with a different sequence of step outcomes (code, value, events, variables), counting only runs in which a script was suspended or a fault point was reached"
	scen("P01", 12000, 400000, base, &Profile{
		Tick: TickProfile{OK: 5, Yield: 5}, TickW: 6, Procs: 1, Scripts: 3, Actions: 80, Stmts: 6,
		Wrong: 12, Slip: 300, Epilogue: 1, Weights: map[string]int{"yield": 5, "steps": 4}})
	scen("P02", 12000, 400000, base, &Profile{
		Tick: TickProfile{OK: 4, Yield: 6, Error: 1}, TickW: 5, Procs: 5, Scripts: 6, Actions: 90, Stmts: 4,
		Wrong: 30, Slip: 400, Epilogue: 1, Abandon: 60, Extra: focusShared,
		Weights: map[string]int{"yield": 6, "steps": 4, "*coroutine": 6, "co": 10, "*loop": 8, "*while": 6, "*when": 5}})
	scen("P03", 12000, 400000, base, &Profile{
		Tick: TickProfile{OK: 5, Yield: 5, Error: 2, Return: 1, Break: 1, Continue: 1, Pass: 1}, TickW: 3, Procs: 3, Scripts: 4, Actions: 70, Stmts: 2,
		Wrong: 30, Abandon: 40, Epilogue: 1, Extra: focusCoroutines, Weights: map[string]int{"yield": 6, "*coroutine": 6, "co": 12}})
	scen("P04", 12000, 400000, base, &Profile{
		Tick: TickProfile{OK: 8, Yield: 1, Error: 3, Return: 2, Break: 2, Continue: 2, Pass: 1}, TickW: 4, Procs: 2, Scripts: 5, Actions: 60, Stmts: 4,
		Wrong: 30, Slip: 200, Epilogue: 1,
		Weights: map[string]int{"*catch": 14, "tick": 14, "return": 3, "error": 3, "break": 3, "pass": 1, "*loop": 7, "*while": 6, "misuse": 6}})
	scen("P05", 12000, 400000, base, &Profile{
		Tick: TickProfile{OK: 6, Yield: 5, Error: 1}, TickW: 4, Procs: 4, Scripts: 5, Actions: 80, Stmts: 4,
		Wrong: 40, Epilogue: 1, Extra: focusLocals,
		Weights: map[string]int{"*def": 12, "call": 14, "*recurse": 5, "*loop": 7, "*foreach": 6, "*scope": 3, "*namespace": 3, "*ensemble": 3, "sub": 8, "*coroutine": 4, "co": 6}})
	scen("P06", 12000, 400000, base, &Profile{
		Tick: TickProfile{OK: 6, Yield: 4, Error: 3, Return: 1, Break: 1, Continue: 1}, TickW: 5, Procs: 4, Scripts: 7, Actions: 60, Stmts: 3,
		Wrong: 15, Slip: 60, Abandon: 5, Epilogue: 3, Weights: map[string]int{"misuse": 6}})
	scen("P08", 12000, 400000, base, &Profile{
		Tick: TickProfile{OK: 6, Yield: 3, Error: 2}, TickW: 4, Procs: 3, Scripts: 5, Actions: 60, Stmts: 3,
		Wrong: 30, Slip: 100, Keep: true, Abandon: 20, Epilogue: 1, Extra: focusValues,
		Weights: map[string]int{"keep": 6, "argspecset": 3, "multiset": 4, "call": 10, "*def": 6}})
	scen("P13", 12000, 400000, base, &Profile{
		Tick: TickProfile{OK: 6, Yield: 1, Error: 2, Break: 1}, TickW: 2, Procs: 2, Scripts: 5, Actions: 50, Stmts: 1,
		Wrong: 20, Slip: 60, Shuffle: true, Extra: focusAssign, Weights: map[string]int{"multiset": 10, "let": 4, "unset": 4, "argspecset": 4}, NoOrder: true})
	scen("P15", 12000, 400000, base, &Profile{
		Tick: TickProfile{OK: 8, Yield: 4, Error: 1, Break: 2, Continue: 2}, TickW: 4, Procs: 3, Scripts: 5, Actions: 80, Stmts: 3,
		Wrong: 30, Epilogue: 1,
		Weights: map[string]int{"*loop": 30, "*while": 16, "*foreach": 16, "*dictforeach": 8, "break": 8}})
	traced := &Profile{
		Tick: TickProfile{OK: 8, Yield: 3, Error: 4}, TickW: 4, Procs: 3, Scripts: 5, Actions: 60, Stmts: 4,
		Wrong: 15, Slip: 60, Trace: 1, Epilogue: 1, Weights: map[string]int{"*catch": 8, "error": 4, "*def": 8, "call": 10, "*recurse": 4}}
	register(&Prop{ID: "P16", Quick: 12000, Deep: 400000, Rule: base, Real: realAll, Stub: stubAll,
		Run: func(r *Run) *Violation {
			if r.Is(5) {
				r.count("runs with module files")
				return moduleRun(r, r.Is(2))
			}
			return scenario(r, traced)
		}})
	scen("P17", 12000, 400000, base, &Profile{
		Tick: TickProfile{OK: 8, Yield: 2, Error: 2, Return: 1, Break: 1, Continue: 1}, TickW: 2, Procs: 2, Scripts: 5, Actions: 60, Stmts: 2,
		Wrong: 20, Slip: 80, Epilogue: 1, Extra: focusArgs, Weights: map[string]int{"*def": 12, "call": 14, "*ensemble": 3, "sub": 4}})
	scen("P18", 12000, 400000, base, &Profile{
		Tick: TickProfile{OK: 6, Yield: 3, Error: 2, Return: 1, Break: 1, Continue: 1}, TickW: 2, Procs: 3, Scripts: 6, Actions: 60, Stmts: 2,
		Wrong: 30, Abandon: 8, Epilogue: 1, Extra: focusDefs, Weights: map[string]int{"*scope": 6, "*namespace": 6, "*ensemble": 6, "sub": 10, "*def": 6, "*alias": 4}})
	shuffled := &Profile{
		Tick: TickProfile{OK: 6, Yield: 2, Error: 2, Break: 1}, TickW: 2, Procs: 2, Scripts: 5, Actions: 50, Stmts: 3,
		Wrong: 30, Slip: 60, Shuffle: true, NoOrder: true, Epilogue: 1, Extra: focusHash,
		Weights: map[string]int{"*dictforeach": 10, "multiset": 5, "argspecset": 4, "*ensemble": 4, "*namespace": 4, "*scope": 3, "sub": 6}}
	register(&Prop{ID: "P14", Quick: 12000, Deep: 400000, Real: realAll, Stub: stubAll,
		Rule: base + "; every enumeration of a hash table takes its order from the seed",
		Run: func(r *Run) *Violation {
			switch r.N(4) {
			case 0:
				return shuffledSoup(r)
			case 1:
				return moduleRun(r, r.Is(2))
			}
			return scenario(r, shuffled)
		}})
}

// shuffledSoup runs the same scripts under different enumeration orders.
func shuffledSoup(r *Run) *Violation {
	u := NewSoup(r)
	u.Order = false
	j := &job{limit: 60, trace: r.Is(3), late: r.Is(2), resume: resumeValues(r, 5), pick: []int{r.N(3), r.N(3)}}
	j.texts = append(j.texts, u.Prelude())
	for i, n := 0, 1+r.N(4); i < n; i++ {
		u.left = 30
		j.texts = append(j.texts, u.Script(1+r.N(4)))
	}
	seed := uint64(r.C.N(rt.Fault, 1<<30))
	var first *record
	for k := 0; k < 3; k++ {
		rt.Reset()
		machine(nil, "/sim")
		j.world = fixedWorld(seed, soupTick)
		r.Ctl.Maps = rt.Shuffled
		if k == 0 {
			r.Ctl.Maps = rt.Sorted
		}
		r.Ctl.Grant(soupLimit)
		rec := j.do()
		if rec.spun() || r.Ctl.Steps >= r.Ctl.Limit {
			r.Skip = true
			r.count("discarded: too long")
			return nil
		}
		for i := range rec.Out {
			rec.Out[i] = strings.TrimPrefix(rec.Out[i], "  event ")
		}
		rec.Out = unordered(rec.Out)
		if k == 0 {
			first = rec
			r.logf("scripts:\n%s\nunder sorted enumeration:\n%s", indent(strings.Join(j.texts, "\n--\n")), indent(strings.Join(rec.Out, "\n")))
			for _, o := range rec.Out {
				r.state(o)
			}
			continue
		}
		r.logf("under enumeration %d:\n%s", k, indent(strings.Join(rec.Out, "\n")))
		if d := first.diff(rec); d != "" {
			return fail("order", "enumeration %d: %s", k, d)
		}
	}
	r.Nontrivial = r.Ctl.MapIters > 0
	r.count("soups compared under three enumerations")
	return nil
}
