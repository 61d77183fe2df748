// Package maps stands in for golang.org/x/exp/maps.
package maps

import "helena/verifsim/rt"

func Keys[M ~map[K]V, K comparable, V any](m M) []K {
	r := make([]K, 0, len(m))
	for k := range rt.RangeMap(m) {
		r = append(r, k)
	}
	return r
}
func Values[M ~map[K]V, K comparable, V any](m M) []V {
	r := make([]V, 0, len(m))
	for _, v := range rt.RangeMap(m) {
		r = append(r, v)
	}
	return r
}
func Clear[M ~map[K]V, K comparable, V any](m M) { clear(m) }
func Clone[M ~map[K]V, K comparable, V any](m M) M {
	if m == nil {
		return nil
	}
	r := make(M, len(m))
	for k, v := range m {
		r[k] = v
	}
	return r
}
func Copy[M1 ~map[K]V, M2 ~map[K]V, K comparable, V any](dst M1, src M2) {
	for k, v := range src {
		dst[k] = v
	}
}
func DeleteFunc[M ~map[K]V, K comparable, V any](m M, del func(K, V) bool) {
	for k, v := range rt.RangeMap(m) {
		if del(k, v) {
			delete(m, k)
		}
	}
}
func Equal[M1, M2 ~map[K]V, K, V comparable](a M1, b M2) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, is := b[k]; !is || v != w {
			return false
		}
	}
	return true
}
func EqualFunc[M1 ~map[K]V1, M2 ~map[K]V2, K comparable, V1, V2 any](a M1, b M2, eq func(V1, V2) bool) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, is := b[k]; !is || !eq(v, w) {
			return false
		}
	}
	return true
}
