package rt

import (
	"fmt"
	"runtime"
)

// Simulated threads. Exactly one runs at a time; the running one hands over at
// a scheduling point when its turn is used up, to the thread the schedule names.
// The hand-over is a plain variable, hidden from the race detector, so that in
// a race-detecting build only the synchronisation of the code under test itself
// orders the threads.

type thread struct {
	ctl   *Ctl
	id    int
	done  bool
	ended chan any
	wait  func() bool // not runnable while it holds
}
type Sched struct {
	threads []*thread
	run     []int32 // lengths of turns, drawn beforehand
	pick    []int32
	pos     int
	active  int
	Turns   int
	Trace   []int32 // thread of each turn
	Dead    bool
	free    bool // the schedule is over: run to completion in order
}

var sched *Sched
var turn int32

// RunThreads runs the functions as simulated threads under the schedule drawn
// from c, and returns the value each one ended with (nil if it just returned).
func RunThreads(c *Choices, ctls []*Ctl, fs []func(), mean, maxTurns int) (*Sched, []any) {
	s := &Sched{active: len(fs)}
	for i := 0; i < maxTurns; i++ {
		// short and long turns
		n := 1
		switch c.N(SchedS, 4) {
		case 0:
			n = 1 + c.N(SchedS, 4)
		case 1, 2:
			n = 1 + c.N(SchedS, mean)
		case 3:
			n = 1 + c.N(SchedS, mean*8)
		}
		s.run = append(s.run, int32(n))
		s.pick = append(s.pick, int32(c.N(SchedS, 64)))
	}
	s.Trace = make([]int32, 0, maxTurns+len(fs)+8)
	old := cur
	s.hold()
	sched = s
	for i := range fs {
		t := &thread{ctl: ctls[i], id: i, ended: make(chan any, 1)}
		s.threads = append(s.threads, t)
	}
	for i, f := range fs {
		go s.body(s.threads[i], f)
	}
	s.start()
	out := make([]any, len(fs))
	for i, t := range s.threads {
		out[i] = <-t.ended
	}
	sched = nil
	cur = old
	return s, out
}

// SchedS is the stream of the schedule.
const SchedS = Stream(1)

func (s *Sched) body(t *thread, f func()) {
	s.await(t)
	defer func() {
		r := recover()
		s.leave(t)
		t.ended <- r
	}()
	f()
}

//go:norace
func (s *Sched) hold() { turn = -1 }

//go:norace
func (s *Sched) start() { s.next(nil) }

//go:norace
func (s *Sched) await(t *thread) {
	for turn != int32(t.id) {
		runtime.Gosched()
	}
	cur = t.ctl
}

//go:norace
func (s *Sched) leave(t *thread) {
	t.done = true
	s.active--
	s.next(t)
}

//go:norace
func (s *Sched) runnable(t *thread) bool {
	return !t.done && (t.wait == nil || !t.wait())
}

// next gives the turn to the thread named by the schedule.
//
//go:norace
func (s *Sched) next(from *thread) *thread {
	n := 0
	for _, t := range s.threads {
		if s.runnable(t) {
			n++
		}
	}
	if n == 0 {
		if s.active > 0 {
			s.Dead = true
			// let a blocked thread fail
			for _, t := range s.threads {
				if !t.done {
					s.give(t, 1<<40)
					return t
				}
			}
		}
		return nil
	}
	k := 0
	var length int64 = 1 << 40
	if s.pos < len(s.run) {
		k = int(s.pick[s.pos]) % n
		length = int64(s.run[s.pos])
		s.pos++
	}
	for _, t := range s.threads {
		if !s.runnable(t) {
			continue
		}
		if k == 0 {
			s.give(t, length)
			return t
		}
		k--
	}
	return nil
}

//go:norace
func (s *Sched) give(t *thread, length int64) {
	s.Turns++
	if len(s.Trace) < cap(s.Trace) {
		s.Trace = s.Trace[:len(s.Trace)+1]
		s.Trace[len(s.Trace)-1] = int32(t.id)
	}
	t.ctl.next = t.ctl.Steps + length
	if t.ctl.next > t.ctl.Limit {
		t.ctl.next = t.ctl.Limit
	}
	turn = int32(t.id)
}

//go:norace
func (s *Sched) preempt(c *Ctl) {
	var me *thread
	for _, t := range s.threads {
		if t.ctl == c {
			me = t
		}
	}
	if me == nil {
		c.next = c.Limit
		return
	}
	to := s.next(me)
	if to != me {
		s.await(me)
	}
}

// Block waits in a simulated thread until cond no longer holds.
//
//go:norace
func Block(cond func() bool) {
	s := sched
	if s == nil {
		if cond() {
			panic(Deadlock{})
		}
		return
	}
	var me *thread
	for _, t := range s.threads {
		if t.ctl == cur {
			me = t
		}
	}
	for cond() {
		me.wait = cond
		to := s.next(me)
		if to != me {
			s.await(me)
		}
		if s.Dead {
			panic(Deadlock{})
		}
		me.wait = nil
	}
	me.wait = nil
}

type Deadlock struct{}

func (Deadlock) String() string { return "deadlock" }

// Go runs the body of a go statement. Outside of a thread simulation the new
// activity runs at once, to its end.
func Go(f func()) {
	s := sched
	if s == nil {
		f()
		return
	}
	panic(fmt.Sprint("go statement in a simulated thread"))
}
