// Package time stands in for the standard package: the clock is simulated and
// advances with the steps of the run.
package time

import (
	"helena/verifsim/rt"
	real "time"
)

var base = real.Unix(1_700_000_000, 0)

func Now() real.Time                  { return base.Add(real.Duration(rt.Cur().Steps) * real.Microsecond) }
func Since(t real.Time) real.Duration { return Now().Sub(t) }
func Until(t real.Time) real.Duration { return t.Sub(Now()) }
func Sleep(d real.Duration)           { rt.Cur().Steps += int64(d / real.Microsecond); rt.P() }
