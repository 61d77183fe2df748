// Package maps stands in for the standard package: iteration order is the
// simulator's.
package maps

import (
	"helena/verifsim/rt"
	"iter"
	real "maps"
)

func All[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] { return rt.RangeMap(m) }
func Keys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		for k := range rt.RangeMap(m) {
			if !yield(k) {
				return
			}
		}
	}
}
func Values[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		for _, v := range rt.RangeMap(m) {
			if !yield(v) {
				return
			}
		}
	}
}
func Clone[M ~map[K]V, K comparable, V any](m M) M { return real.Clone(m) }
func Copy[M1 ~map[K]V, M2 ~map[K]V, K comparable, V any](dst M1, src M2) {
	real.Copy(dst, src)
}
func Collect[K comparable, V any](s iter.Seq2[K, V]) map[K]V { return real.Collect(s) }
func Insert[M ~map[K]V, K comparable, V any](m M, s iter.Seq2[K, V]) {
	real.Insert(m, s)
}
func DeleteFunc[M ~map[K]V, K comparable, V any](m M, del func(K, V) bool) {
	for k, v := range rt.RangeMap(m) {
		if del(k, v) {
			delete(m, k)
		}
	}
}
func Equal[M1, M2 ~map[K]V, K, V comparable](a M1, b M2) bool { return real.Equal(a, b) }
func EqualFunc[M1 ~map[K]V1, M2 ~map[K]V2, K comparable, V1, V2 any](a M1, b M2, eq func(V1, V2) bool) bool {
	return real.EqualFunc(a, b, eq)
}
