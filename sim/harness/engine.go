package main

import (
	"encoding/json"
	"fmt"
	"helena/verifsim/model"
	"helena/verifsim/rt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"time"
)

// Violation is what a run found wrong.
type Violation struct {
	Class string
	Msg   string
}

// Prop is a property and the simulation that decides it.
type Prop struct {
	ID    string
	Run   func(r *Run) *Violation
	Quick int // runs of the quick tier
	Deep  int // runs of the thorough tier
	Rule  string
	Level string
	Real  string // components running real code
	Stub  string // components replaced by a stub
	Limit int64  // scheduling points granted to a run
	Race  bool
}

var props = map[string]*Prop{}

func register(p *Prop) {
	if p.Limit == 0 {
		p.Limit = 3_000_000
	}
	props[p.ID] = p
}

// Run is one simulated run.
type Run struct {
	P          *Prop
	C          *rt.Choices
	Ctl        *rt.Ctl
	Log        []string
	Stats      Stats
	State      map[uint64]bool // states reached
	quiet      bool
	Skip       bool // not a run the model can judge
	Sum        uint64
	Nontrivial bool
}
type Stats map[string]int64

func (s Stats) add(o Stats) {
	for k, v := range o {
		s[k] += v
	}
}

// live prints the log as it grows.
var live bool

func (r *Run) logf(f string, a ...any) {
	if !r.quiet {
		r.Log = append(r.Log, fmt.Sprintf(f, a...))
		if live {
			fmt.Println(r.Log[len(r.Log)-1])
		}
	}
}
func (r *Run) state(parts ...any) {
	h := rt.Hash(parts...)
	r.Sum = rt.Hash(r.Sum, h)
	r.State[h] = true
}
func (r *Run) N(n int) int    { return r.C.N(rt.Gen, n) }
func (r *Run) Is(n int) bool  { return r.C.Is(rt.Gen, n) }
func (r *Run) count(k string) { r.Stats[k]++ }

func fail(class, f string, a ...any) *Violation {
	return &Violation{class, fmt.Sprintf(f, a...)}
}

func stackOf() string {
	pc := make([]uintptr, 64)
	n := runtime.Callers(3, pc)
	fr := runtime.CallersFrames(pc[:n])
	out := []string{}
	for {
		f, more := fr.Next()
		if strings.HasPrefix(f.Function, "helena/") && !strings.Contains(f.Function, "verifsim") {
			out = append(out, f.Function[strings.LastIndex(f.Function, "/")+1:])
		}
		if !more || len(out) >= 6 {
			break
		}
	}
	return " in " + strings.Join(out, " < ")
}

func isTooLong(r any) bool {
	switch r.(type) {
	case model.TooLong, model.Defect, rt.StepLimit:
		return true
	}
	return false
}

// exec performs one run with the given choices.
func exec(p *Prop, c *rt.Choices, quiet bool) (r *Run, v *Violation) {
	r = &Run{P: p, C: c, Stats: Stats{}, State: map[uint64]bool{}, quiet: quiet}
	r.Ctl = &rt.Ctl{C: c, Limit: p.Limit, Maps: rt.Sorted}
	rt.Begin(&rt.Ctl{C: &rt.Choices{}, Limit: 1 << 60, Maps: rt.Sorted})
	rt.Reset()
	rt.Begin(r.Ctl)
	defer func() {
		x := recover()
		if x != nil {
			if isTooLong(x) {
				r.Skip = true
				why := "discarded: too long"
				if d, is := x.(model.Defect); is {
					why = "discarded: the reference model failed"
					if os.Getenv("SIM_DEFECTS") != "" {
						fmt.Fprintln(os.Stderr, d.What)
					}
				}
				r.count(why)
				v = nil
			} else {
				panic(x)
			}
		}
		ctl := r.Ctl
		r.Stats["scheduling points"] += ctl.Steps
		r.Stats["pool gets"] += int64(ctl.PoolGets)
		r.Stats["fault: recycled object reused"] += int64(ctl.PoolReuse)
		r.Stats["fault: older recycled object reused"] += int64(ctl.PoolOther)
		r.Stats["fault: recycled object dropped"] += int64(ctl.PoolFresh)
		r.Stats["map iterations ordered by the simulator"] += int64(ctl.MapIters)
	}()
	v = p.Run(r)
	return
}

// Replay file.
type ReplayFile struct {
	Property string              `json:"property"`
	Class    string              `json:"class"`
	Message  string              `json:"message"`
	Seed     uint64              `json:"verif_seed"`
	Index    int                 `json:"run"`
	RunSeed  string              `json:"run_seed"`
	Streams  map[string][]uint32 `json:"choices"`
	Trace    []string            `json:"trace"`
	Shrunk   string              `json:"shrunk,omitempty"`
}

func streamsOf(s [rt.NStreams][]uint32) map[string][]uint32 {
	m := map[string][]uint32{}
	for i, x := range s {
		if x == nil {
			x = []uint32{}
		}
		m[rt.StreamNames[i]] = x
	}
	return m
}
func (f *ReplayFile) streams() (s [rt.NStreams][]uint32) {
	for i, n := range rt.StreamNames {
		s[i] = f.Streams[n]
	}
	return
}
func readReplay(path string) *ReplayFile {
	b, err := os.ReadFile(path)
	if err != nil {
		trouble("%v", err)
	}
	f := &ReplayFile{}
	if err := json.Unmarshal(b, f); err != nil {
		trouble("%v", err)
	}
	return f
}
func (f *ReplayFile) write(path string) {
	b, _ := json.MarshalIndent(f, "", " ")
	if err := os.WriteFile(path, b, 0o644); err != nil {
		trouble("%v", err)
	}
}

func trouble(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "harness: "+f+"\n", a...)
	os.Exit(3)
}

func runSeed(seed uint64, prop string, i int) uint64 { return rt.Hash(seed, prop, i) }

// shrink minimises the choices of a failing run: try must report the class of
// the violation the choices lead to, and the choices actually taken.
func shrink(s [rt.NStreams][]uint32, class string, until time.Time, try func(s [rt.NStreams][]uint32) (string, [rt.NStreams][]uint32)) ([rt.NStreams][]uint32, int) {
	n := 0
	better := func(a, b [rt.NStreams][]uint32) bool { // a simpler than b
		la, lb := 0, 0
		for i := range a {
			la += len(a[i])
			lb += len(b[i])
		}
		if la != lb {
			return la < lb
		}
		var sa, sb uint64
		for i := range a {
			for _, x := range a[i] {
				sa += uint64(x)
			}
			for _, x := range b[i] {
				sb += uint64(x)
			}
		}
		return sa < sb
	}
	attempt := func(c [rt.NStreams][]uint32) bool {
		if time.Now().After(until) {
			return false
		}
		n++
		got, taken := try(c)
		if got != class || !better(taken, s) {
			return false
		}
		s = taken
		return true
	}
	cp := func(x []uint32) []uint32 { return append([]uint32{}, x...) }
	for pass := 0; pass < 12 && time.Now().Before(until); pass++ {
		improved := false
		for st := 0; st < int(rt.NStreams); st++ {
			// empty tail
			for _, k := range []int{0, len(s[st]) / 4, len(s[st]) / 2, len(s[st]) * 3 / 4} {
				if k < len(s[st]) {
					c := s
					c[st] = cp(s[st][:k])
					if attempt(c) {
						improved = true
					}
				}
			}
			for size := len(s[st]) / 2; size >= 1; size /= 2 {
				for i := 0; i+size <= len(s[st]); {
					if time.Now().After(until) {
						return s, n
					}
					c := s
					c[st] = append(cp(s[st][:i]), s[st][i+size:]...)
					if attempt(c) {
						improved = true
						continue
					}
					zero := true
					for _, x := range s[st][i : i+size] {
						if x != 0 {
							zero = false
						}
					}
					if !zero {
						c = s
						c[st] = cp(s[st])
						for j := i; j < i+size; j++ {
							c[st][j] = 0
						}
						if attempt(c) {
							improved = true
						}
					}
					i += size
				}
			}
			for i := 0; i < len(s[st]); i++ {
				for i < len(s[st]) && s[st][i] > 1 {
					c := s
					c[st] = cp(s[st])
					c[st][i] /= 2
					if !attempt(c) {
						break
					}
					improved = true
				}
			}
		}
		if !improved {
			break
		}
	}
	return s, n
}

func init() { debug.SetMaxStack(256 << 20) }
