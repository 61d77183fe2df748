package rt

import (
	"cmp"
	"fmt"
	"iter"
	"slices"
)

// StepLimit is thrown when a run takes more steps than it is granted.
type StepLimit struct{}

// Exit is thrown by the simulated os.Exit.
type Exit struct{ Code int }

// Sink receives the value that ended a simulated thread.
type Sink = any

// MapMode says how the iteration order of maps is chosen.
type MapMode int

const (
	Sorted MapMode = iota
	Shuffled
	Native
)

// Ctl is the state of one run of the simulation.
type Ctl struct {
	C                                                   *Choices
	Maps                                                MapMode
	Limit                                               int64
	Reuse                                               bool // pools keep everything and hand out the latest
	Steps                                               int64
	next                                                int64 // step of the next event
	MapIters                                            int
	PoolGets, PoolReuse, PoolOther, PoolFresh, PoolPuts int
}

// cur is the control state of the running simulated thread.
var cur = &Ctl{Limit: 1 << 60, next: 1 << 60, Maps: Sorted, C: &Choices{}}

// Begin starts a run.
func Begin(c *Ctl) {
	cur = c
	c.next = c.Limit
}

//go:norace
func Cur() *Ctl { return cur }

// P is a scheduling point: rewritten code calls it before every statement.
//
//go:norace
func P() {
	c := cur
	c.Steps++
	if c.Steps >= c.next {
		event(c)
	}
}

//go:norace
func event(c *Ctl) {
	if c.Steps >= c.Limit {
		panic(StepLimit{})
	}
	if sched != nil {
		sched.preempt(c)
		return
	}
	c.next = c.Limit
}

// Registered reset functions, by package.
var resets = map[string]func(){}

func Register(pkg string, f func()) { resets[pkg] = f }

// Reset gives the package variables of the code under test their initial
// values again.
func Reset() {
	for _, p := range Packages {
		if f := resets[p]; f != nil {
			f()
		}
	}
	for _, f := range OnReset {
		f()
	}
}

// OnReset are the reset functions of the stand-ins.
var OnReset []func()

// RangeMap iterates over a map in an order chosen by the simulator. Like the
// native iteration it does not produce entries deleted meanwhile.
func RangeMap[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		c := cur
		if c.Maps == Native {
			for k, v := range m {
				if !yield(k, v) {
					return
				}
			}
			return
		}
		ks := make([]K, 0, len(m))
		for k := range m {
			ks = append(ks, k)
		}
		SortKeys(ks)
		if len(ks) > 1 {
			c.MapIters++
		}
		if c.Maps == Shuffled {
			for i := len(ks) - 1; i > 0; i-- {
				j := i - c.C.N(Map, i+1)
				ks[i], ks[j] = ks[j], ks[i]
			}
		}
		for _, k := range ks {
			v, is := m[k]
			if !is {
				continue
			}
			if !yield(k, v) {
				return
			}
		}
	}
}

// SortKeys arranges keys in a reproducible order.
func SortKeys[K comparable](ks []K) {
	switch x := any(ks).(type) {
	case []string:
		slices.Sort(x)
	case []int:
		slices.Sort(x)
	case []uint:
		slices.Sort(x)
	default:
		slices.SortFunc(ks, func(a, b K) int { return cmp.Compare(fmt.Sprint(a), fmt.Sprint(b)) })
	}
}

// Grant gives a run so many further steps.
func (c *Ctl) Grant(n int64) {
	c.Limit = c.Steps + n
	c.next = c.Limit
}
