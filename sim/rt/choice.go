// Package rt is the core of the simulator: the choices every run is made of,
// the scheduling points, the simulated threads and the per-run reset of the
// code under test. All nondeterminism of a run comes from here.
package rt

// Stream names one source of choices of a run.
type Stream int

const (
	Gen         Stream = iota // the program and the history
	schedStream               // interleaving
	Pool                      // reuse of recycled objects
	Map                       // hash iteration order
	Fault                     // injected faults
	NStreams
)

var StreamNames = [NStreams]string{"gen", "sched", "pool", "map", "fault"}

// Choices is the sequence of decisions of a run: a recorded prefix followed by
// pseudo-random ones (or by zeros, which stand for the simplest choice).
type Choices struct {
	S    [NStreams][]uint32 // taken so far
	pre  [NStreams][]uint32
	rng  [NStreams]uint64
	Tail bool // draw randomly after the prefix
	Rec  func(s Stream, v uint32)
}

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// Hash folds strings and numbers into a seed.
func Hash(parts ...any) uint64 {
	h := uint64(0x243f6a8885a308d3)
	for _, p := range parts {
		switch x := p.(type) {
		case string:
			for i := 0; i < len(x); i++ {
				h = mix(h ^ uint64(x[i]))
			}
		case int:
			h = mix(h ^ uint64(x))
		case uint64:
			h = mix(h ^ x)
		}
		h = mix(h + 0x1234567)
	}
	return h
}

// NewChoices makes the choices of a fresh seed.
func NewChoices(seed uint64) *Choices {
	c := &Choices{Tail: true}
	for i := range c.rng {
		c.rng[i] = mix(seed ^ mix(uint64(i)+77))
	}
	return c
}

// Replay makes choices from recorded ones.
func Replay(s [NStreams][]uint32) *Choices {
	return &Choices{pre: s}
}

// N draws a number below n.
func (c *Choices) N(s Stream, n int) int {
	if n <= 1 {
		return 0
	}
	var v uint32
	k := len(c.S[s])
	if k < len(c.pre[s]) {
		v = c.pre[s][k]
		if v >= uint32(n) {
			v %= uint32(n)
		}
	} else if c.Tail {
		c.rng[s] += 0x9e3779b97f4a7c15
		v = uint32(mix(c.rng[s]) >> 33 % uint64(n))
	}
	c.S[s] = append(c.S[s], v)
	if c.Rec != nil {
		c.Rec(s, v)
	}
	return int(v)
}

// Is draws true once in n.
func (c *Choices) Is(s Stream, n int) bool { return c.N(s, n) == n-1 }
