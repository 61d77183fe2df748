// Package fmt stands in for the standard package: what prints goes to the
// simulated terminal.
package fmt

import (
	real "fmt"
	os "helena/verifsim/simos"
)

func Print(a ...any) (int, error)            { return real.Fprint(os.Stdout, a...) }
func Println(a ...any) (int, error)          { return real.Fprintln(os.Stdout, a...) }
func Printf(f string, a ...any) (int, error) { return real.Fprintf(os.Stdout, f, a...) }
