// Command harness runs the simulations: seeded search over programs, schedules
// and faults, against the code in /repo built under the overlay.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"helena/verifsim/rt"
	"io"
	"os"
	osexec "os/exec"
	"path/filepath"
	"runtime"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	simos "helena/verifsim/simos"

	"github.com/fatih/color"
)

func init() {
	color.NoColor = true
	color.Output = simos.Stdout
	color.Error = simos.Stderr
}

func main() {
	if len(os.Args) < 2 {
		trouble("usage: harness check|work|replay|try ...")
	}
	fs := flag.NewFlagSet("harness", flag.ExitOnError)
	prop := fs.String("property", "", "property")
	start := fs.Int("start", 0, "first run")
	stride := fs.Int("stride", 1, "stride")
	runs := fs.Int("runs", 0, "runs")
	secs := fs.Float64("seconds", 0, "wall limit")
	seed := fs.Uint64("seed", 1, "seed")
	beat := fs.String("beat", "", "heartbeat file")
	dir := fs.String("dir", ".", "directory of evidence and replays")
	tier := fs.String("tier", "quick", "tier")
	build := fs.Float64("build", 0, "seconds spent building")
	raceBin := fs.String("racebin", "", "race-detecting harness")
	file := ""
	args := os.Args[2:]
	if len(args) > 0 && !strings.HasPrefix(args[0], "-") {
		file, args = args[0], args[1:]
	}
	fs.Parse(args)
	switch os.Args[1] {
	case "check":
		p := props[*prop]
		if p == nil {
			trouble("unknown property %s", *prop)
		}
		check(p, *seed, *tier, *dir, *build, *raceBin, *runs, *secs)
	case "work":
		if pf := os.Getenv("SIM_CPUPROFILE"); pf != "" {
			out, _ := os.Create(pf)
			pprof.StartCPUProfile(out)
			defer pprof.StopCPUProfile()
		}
		work(props[*prop], *seed, *start, *stride, *runs, *secs, *beat)
	case "replay":
		replay(file)
	case "record":
		// one run, its choices written down as they are taken
		var c *rt.Choices
		id := *prop
		if file != "" {
			f := readReplay(file)
			c, id = rt.Replay(f.streams()), f.Property
		} else {
			c = rt.NewChoices(runSeed(*seed, id, *start))
		}
		out, err := os.Create(*beat)
		if err != nil {
			trouble("%v", err)
		}
		c.Rec = func(s rt.Stream, v uint32) {
			out.Write([]byte{byte(s), byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24)})
		}
		exec(props[id], c, true)
	case "show":
		// print one run
		p := props[*prop]
		r, v := exec(p, rt.NewChoices(runSeed(*seed, p.ID, *start)), false)
		fmt.Println(strings.Join(r.Log, "\n"))
		fmt.Println("skip", r.Skip, "violation", v, "steps", r.Ctl.Steps)
		fmt.Println(r.Stats)
	default:
		trouble("unknown command %s", os.Args[1])
	}
}

// Report of a worker.
type Report struct {
	Runs, Skipped int
	Nontrivial    int
	Distinct      []uint64 `json:"-"`
	Stats         Stats
	States        int
	NewStates     []uint64
	Sums          []uint64
	Viol          *ReplayFile
	Samples       []string
	Wall          float64
	Nondet        int
	Done          int // index after the last run
}

func work(p *Prop, seed uint64, start, stride, runs int, secs float64, beat string) {
	var hb *os.File
	if beat != "" {
		hb, _ = os.OpenFile(beat, os.O_CREATE|os.O_WRONLY, 0o600)
	}
	rep := &Report{Stats: Stats{}}
	begin := time.Now()
	states := map[uint64]bool{}
	sums := map[uint64]bool{}
	k := 0
	for i := start; i < runs; i += stride {
		if time.Since(begin).Seconds() > secs {
			break
		}
		if hb != nil {
			hb.WriteAt([]byte(fmt.Sprintf("%12d", i)), 0)
		}
		rs := runSeed(seed, p.ID, i)
		c := rt.NewChoices(rs)
		quiet := k > 1
		r, v := exec(p, c, quiet)
		rep.Runs++
		k++
		if r.Skip {
			rep.Skipped++
		}
		rep.Stats.add(r.Stats)
		for s := range r.State {
			if len(states) < 400_000 {
				states[s] = true
			}
		}
		if r.Nontrivial && !r.Skip {
			sums[r.Sum] = true
		}
		if v == nil && k%64 == 3 {
			// the same seed must give the same run
			r2, v2 := exec(p, rt.NewChoices(rs), true)
			if v2 != nil || r2.Sum != r.Sum || r2.Ctl.Steps != r.Ctl.Steps {
				rep.Nondet++
			}
			rep.Stats["runs repeated to check determinism"]++
		}
		if !quiet {
			t := r.Log
			if len(t) > 60 {
				t = append(append([]string{}, t[:60]...), "...")
			}
			rep.Samples = append(rep.Samples, strings.Join(t, "\n"))
		}
		if v != nil {
			f := &ReplayFile{Property: p.ID, Class: v.Class, Message: v.Msg, Seed: seed, Index: i,
				RunSeed: fmt.Sprintf("%016x", rs), Streams: streamsOf(c.S)}
			s, n := shrink(c.S, v.Class, time.Now().Add(25*time.Second), func(s [rt.NStreams][]uint32) (string, [rt.NStreams][]uint32) {
				if hb != nil {
					hb.WriteAt([]byte(fmt.Sprintf("%12d", i)), 0)
				}
				c := rt.Replay(s)
				_, v := exec(p, c, true)
				if v == nil {
					return "", c.S
				}
				return v.Class, c.S
			})
			r, v2 := exec(p, rt.Replay(s), false)
			if v2 == nil || v2.Class != v.Class {
				// keep the unshrunk run
				r, v2 = exec(p, rt.Replay(c.S), false)
				s = c.S
			}
			if v2 == nil {
				rep.Nondet++
				f.Shrunk = "not reproduced on replay"
			} else {
				f.Message = v2.Msg
				f.Shrunk = fmt.Sprintf("%d candidates tried", n)
			}
			f.Streams = streamsOf(s)
			f.Trace = r.Log
			rep.Viol = f
			break
		}
	}
	rep.States = len(states)
	for s := range states {
		rep.NewStates = append(rep.NewStates, s)
	}
	for s := range sums {
		rep.Sums = append(rep.Sums, s)
	}
	rep.Wall = time.Since(begin).Seconds()
	if err := json.NewEncoder(os.Stdout).Encode(rep); err != nil {
		trouble("%v", err)
	}
}

func replay(file string) {
	f := readReplay(file)
	p := props[f.Property]
	if p == nil {
		trouble("unknown property %s", f.Property)
	}
	c := rt.Replay(f.streams())
	if f.Class == "died" {
		fmt.Println("the process is expected to die:")
	}
	live = f.Class == "died"
	r, v := exec(p, c, false)
	if !live {
		fmt.Println(strings.Join(r.Log, "\n"))
	}
	if v == nil {
		fmt.Println("no violation")
		return
	}
	fmt.Printf("violation of %s (%s): %s\n", p.ID, v.Class, v.Msg)
	os.Exit(1)
}

type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 16384 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}

func check(p *Prop, seed uint64, tier, dir string, build float64, raceBin string, runsArg int, secsArg float64) {
	begin := time.Now()
	runs, secs := p.Quick, 55.0
	if tier == "thorough" {
		runs, secs = p.Deep, 600.0
	}
	if runsArg > 0 {
		runs = runsArg
	}
	if secsArg > 0 {
		secs = secsArg
	}
	workers := runtime.NumCPU()
	if workers > 8 {
		workers = 8
	}
	if workers < 2 {
		workers = 2
	}
	self := os.Args[0]
	if p.Race && raceBin != "" {
		self = raceBin
	}
	tmp, err := os.MkdirTemp("", "sim")
	if err != nil {
		trouble("%v", err)
	}
	defer os.RemoveAll(tmp)
	type result struct {
		rep  *Report
		died string
		at   int
	}
	results := make([]result, workers)
	var wg sync.WaitGroup
	stop := make(chan struct{})
	var once sync.Once
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			beat := filepath.Join(tmp, "beat"+strconv.Itoa(w))
			cmd := osexec.Command(self, "work", "-property", p.ID, "-seed", fmt.Sprint(seed), "-start", fmt.Sprint(w),
				"-stride", fmt.Sprint(workers), "-runs", fmt.Sprint(runs), "-seconds", fmt.Sprint(secs), "-beat", beat)
			cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOMEMLIMIT=1500MiB")
			if p.Race {
				cmd.Env = append(cmd.Env, "GORACE=halt_on_error=0 exitcode=0 log_path=stderr")
			}
			errs := &tail{}
			cmd.Stderr = errs
			out, _ := cmd.StdoutPipe()
			if err := cmd.Start(); err != nil {
				results[w].died = "not started: " + err.Error()
				results[w].at = -1
				return
			}
			done := make(chan struct{})
			stalled := false
			go func() {
				last, since := "", time.Now()
				for {
					select {
					case <-done:
						return
					case <-stop:
						cmd.Process.Kill()
						return
					case <-time.After(500 * time.Millisecond):
					}
					b, _ := os.ReadFile(beat)
					if string(b) != last {
						last, since = string(b), time.Now()
					} else if time.Since(since) > 90*time.Second {
						stalled = true
						cmd.Process.Kill()
						return
					}
				}
			}()
			text, _ := io.ReadAll(bufio.NewReader(out))
			err := cmd.Wait()
			close(done)
			rep := &Report{}
			if err == nil && json.Unmarshal(text, rep) == nil {
				results[w].rep = rep
				if rep.Viol != nil {
					once.Do(func() {
						// leave the others a moment to find an earlier one
						time.AfterFunc(2*time.Second, func() { close(stop) })
					})
				}
				return
			}
			select {
			case <-stop:
				return // told to stop
			default:
			}
			b, _ := os.ReadFile(beat)
			at, e := strconv.Atoi(strings.TrimSpace(string(b)))
			if e != nil {
				at = -1
			}
			results[w].at = at
			if stalled {
				results[w].died = "stalled"
			} else {
				results[w].died = fmt.Sprint(err) + "\n" + string(errs.b)
			}
			once.Do(func() { close(stop) })
		}(w)
	}
	wg.Wait()
	total := &Report{Stats: Stats{}}
	states, sums := map[uint64]bool{}, map[uint64]bool{}
	var viol *ReplayFile
	for _, res := range results {
		if res.rep == nil {
			continue
		}
		rep := res.rep
		total.Runs += rep.Runs
		total.Skipped += rep.Skipped
		total.Nondet += rep.Nondet
		total.Stats.add(rep.Stats)
		for _, s := range rep.NewStates {
			states[s] = true
		}
		for _, s := range rep.Sums {
			sums[s] = true
		}
		if len(total.Samples) < 2 && len(rep.Samples) > 0 {
			total.Samples = append(total.Samples, rep.Samples[0])
		}
		if rep.Viol != nil && (viol == nil || rep.Viol.Index < viol.Index) {
			viol = rep.Viol
		}
	}
	if viol == nil {
		for _, res := range results {
			if res.died == "" {
				continue
			}
			if res.at < 0 {
				trouble("worker: %s", res.died)
			}
			viol = died(p, seed, res.at, res.died, self, tmp)
			if viol == nil {
				trouble("worker died in run %d and the run does not repeat it: %s", res.at, res.died)
			}
			break
		}
	}
	wall := time.Since(begin).Seconds()
	if total.Runs == 0 && viol == nil {
		trouble("no runs")
	}
	known := readKnown(filepath.Join(dir, "known-findings.json"))
	code := 0
	nviol := 0
	if viol != nil {
		nviol = 1
	}
	total.Samples = trimSamples(total.Samples)
	evidence(p, seed, tier, dir, total, len(states), len(sums), wall, build, nviol)
	for _, k := range known {
		if k.Property == p.ID && k.Status == "open" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k.What)
		}
	}
	if viol != nil {
		rd := filepath.Join(dir, "replays")
		os.MkdirAll(rd, 0o755)
		path := filepath.Join(rd, fmt.Sprintf("%s-%s.json", p.ID, viol.RunSeed))
		viol.write(path)
		for _, l := range viol.Trace {
			fmt.Println("  " + l)
		}
		fmt.Printf("%s: %s\n", viol.Class, viol.Message)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		code = 1
	} else {
		fmt.Printf("%s held: %d runs (%d discarded), %d distinct non-trivial, %d states, %.1f s\n",
			p.ID, total.Runs, total.Skipped, len(sums), len(states), wall)
	}
	os.RemoveAll(tmp)
	os.Exit(code)
}

func trimSamples(s []string) []string {
	for i, x := range s {
		if len(x) > 6000 {
			s[i] = x[:6000] + "..."
		}
	}
	return s
}

// died investigates a run that ended the whole process.
func died(p *Prop, seed uint64, at int, how string, self, tmp string) *ReplayFile {
	rs := runSeed(seed, p.ID, at)
	f := &ReplayFile{Property: p.ID, Class: "died", Seed: seed, Index: at, RunSeed: fmt.Sprintf("%016x", rs)}
	first := strings.SplitN(how, "\n", 12)
	if len(first) > 11 {
		first = first[:11]
	}
	f.Message = "the process died: " + strings.Join(first, " | ")
	rec := filepath.Join(tmp, "rec")
	cand := filepath.Join(tmp, "cand.json")
	run := func(args ...string) (string, [rt.NStreams][]uint32) {
		cmd := osexec.Command(self, append(append([]string{"record"}, args...), "-beat", rec)...)
		if err := cmd.Start(); err != nil {
			return "", [rt.NStreams][]uint32{}
		}
		ch := make(chan error, 1)
		go func() { ch <- cmd.Wait() }()
		class := ""
		select {
		case err := <-ch:
			if err != nil {
				class = "died"
			}
		case <-time.After(20 * time.Second):
			cmd.Process.Kill()
			<-ch
			class = "died"
		}
		var s [rt.NStreams][]uint32
		b, _ := os.ReadFile(rec)
		for ; len(b) >= 5; b = b[5:] {
			st := b[0]
			s[st] = append(s[st], uint32(b[1])|uint32(b[2])<<8|uint32(b[3])<<16|uint32(b[4])<<24)
		}
		return class, s
	}
	class, s := run("-property", p.ID, "-seed", fmt.Sprint(seed), "-start", fmt.Sprint(at))
	if class != "died" {
		return nil
	}
	n := 0
	s, n = shrink(s, "died", time.Now().Add(40*time.Second), func(s [rt.NStreams][]uint32) (string, [rt.NStreams][]uint32) {
		g := *f
		g.Streams = streamsOf(s)
		g.write(cand)
		return run(cand)
	})
	f.Streams = streamsOf(s)
	f.Shrunk = fmt.Sprintf("%d candidates tried", n)
	f.Trace = []string{"the process dies in this run: harness replay prints its steps up to there"}
	return f
}

type known struct {
	Property, Status, What, Commit string
}

func readKnown(path string) []known {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var k struct{ Findings []known }
	if err := json.Unmarshal(b, &k); err != nil {
		trouble("known-findings.json: %v", err)
	}
	return k.Findings
}

func evidence(p *Prop, seed uint64, tier, dir string, t *Report, states, sums int, wall, build float64, viol int) {
	faults := map[string]int64{}
	other := map[string]int64{}
	for k, v := range t.Stats {
		if n, is := strings.CutPrefix(k, "fault: "); is {
			faults[n] = v
		} else {
			other[k] = v
		}
	}
	cov := map[string]any{
		"evaluations":               t.Runs,
		"distinct_nontrivial":       sums,
		"rule":                      p.Rule,
		"samples":                   t.Samples,
		"simulated_runs":            t.Runs,
		"discarded_runs":            t.Skipped,
		"runs_per_hour":             int64(float64(t.Runs) / wall * 3600),
		"simulated_time":            fmt.Sprintf("%d scheduling points (the code under test has no clock; its statements are the unit)", t.Stats["scheduling points"]),
		"faults_injected":           faults,
		"distinct_states":           states,
		"distinct_states_measure":   "hashes of the outcome of each simulated step (code, value, events since the previous step, variables), capped at 400000 per worker",
		"counts":                    other,
		"real_components":           p.Real,
		"stubbed_components":        p.Stub,
		"instrumented_points":       rt.Points,
		"runs_repeated_differently": t.Nondet,
		"build_seconds":             build,
	}
	if t.Samples == nil {
		cov["samples"] = []string{}
	}
	ev := map[string]any{
		"property": p.ID, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": cov, "wall_s": wall + build, "violations": viol,
		"assumptions": []string{"the reference model in sim/model states the intended behaviour", "faults and schedules are those the simulator can express (DESIGN.md)"},
	}
	os.MkdirAll(filepath.Join(dir, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, "evidence", p.ID+".json"), append(b, '\n'), 0o644); err != nil {
		trouble("%v", err)
	}
	_ = sort.Strings
}
