package main

import (
	"fmt"
	"helena/verifsim/model"
	"helena/verifsim/rt"
)

// World decides what happens at the fault points of a run. The real interpreter
// and the model are given the same decisions.
type World struct {
	r     *Run
	memo  map[string][]model.Outcome
	prof  TickProfile
	disk  *disk // files
	onEnv func(label string)
	limit int
	total int
}

// TickProfile weighs the outcomes of fault points.
type TickProfile struct {
	OK, Yield, Error, Return, Break, Continue, Pass int
}

func NewWorld(r *Run, prof TickProfile) *World {
	return &World{r: r, memo: map[string][]model.Outcome{}, prof: prof, limit: 400}
}

func (w *World) decide(label string, n int) model.Outcome {
	m := w.memo[label]
	for len(m) <= n {
		m = append(m, w.draw(label, len(m)))
	}
	w.memo[label] = m
	return m[n]
}
func (w *World) draw(label string, n int) model.Outcome {
	p := w.prof
	w.total++
	if w.total > w.limit {
		return model.Outcome{Code: model.OK, Value: label}
	}
	k := w.r.C.N(rt.Fault, p.OK+p.Yield+p.Error+p.Return+p.Break+p.Continue+p.Pass)
	o := model.Outcome{Value: fmt.Sprintf("%s.%d", label, n)}
	for _, x := range []struct {
		w int
		c model.Code
	}{{p.OK, model.OK}, {p.Yield, model.YIELD}, {p.Error, model.ERROR}, {p.Return, model.RETURN},
		{p.Break, model.BREAK}, {p.Continue, model.CONTINUE}, {p.Pass, model.PASS}} {
		if k < x.w {
			o.Code = x.c
			break
		}
		k -= x.w
	}
	if o.Code == model.OK {
		o.Value = label
	} else {
		w.r.Stats["fault: "+o.Code.String()+" at a fault point"]++
		w.r.logf("    fault: %s #%d is to give %s", label, n, o.Code)
	}
	return o
}
func (w *World) env(label string) {
	if w.onEnv != nil {
		w.onEnv(label)
	}
}

// mhost is the model's view of the world.
type mhost struct {
	w  *World
	n  map[string]int
	Ev []string

	onEnv func(label string)
	files func(path string) (*model.Script, string)
}

func (h *mhost) Emit(args []model.Value) { h.Ev = append(h.Ev, model.ShowAll(args)) }
func (h *mhost) Tick(label string) model.Outcome {
	k := h.n[label]
	h.n[label]++
	return h.w.decide(label, k)
}
func (h *mhost) Env(label string) {
	if h.onEnv != nil {
		h.onEnv(label)
	}
}
func (h *mhost) ReadFile(path string) (*model.Script, string) {
	if h.files != nil {
		return h.files(path)
	}
	if h.w.disk == nil {
		return nil, "error reading module: open " + path + ": no such file or directory"
	}
	return h.w.disk.ReadFile(path)
}
