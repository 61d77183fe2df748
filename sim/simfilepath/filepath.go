// Package filepath stands in for the standard package: paths are resolved in
// the simulated file system.
package filepath

import (
	os "helena/verifsim/simos"
	real "path/filepath"
)

func Abs(p string) (string, error) {
	if real.IsAbs(p) {
		return real.Clean(p), nil
	}
	return real.Join(os.S.Dir, p), nil
}
func EvalSymlinks(p string) (string, error) {
	if _, err := os.Stat(p); err != nil {
		return "", err
	}
	return real.Clean(p), nil
}
