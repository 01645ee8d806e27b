// Package maps is maps with seeded iteration order.
package maps

import (
	"iter"
	std "maps"

	"github.com/carlisia/bio-adapt/zzverif/rt"
)

func All[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] { return rt.RangeMap(m) }
func Keys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K]    { return rt.RangeMapK(m) }
func Values[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		for _, v := range rt.RangeMap(m) {
			if !yield(v) {
				return
			}
		}
	}
}
func Clone[M ~map[K]V, K comparable, V any](m M) M                   { return std.Clone(m) }
func Collect[K comparable, V any](seq iter.Seq2[K, V]) map[K]V       { return std.Collect(seq) }
func Copy[M1 ~map[K]V, M2 ~map[K]V, K comparable, V any](d M1, s M2) { std.Copy(d, s) }
func DeleteFunc[M ~map[K]V, K comparable, V any](m M, del func(K, V) bool) {
	for k, v := range rt.RangeMap(m) {
		if del(k, v) {
			delete(m, k)
		}
	}
}
func Equal[M1, M2 ~map[K]V, K, V comparable](a M1, b M2) bool { return std.Equal(a, b) }
func EqualFunc[M1 ~map[K]V1, M2 ~map[K]V2, K comparable, V1, V2 any](a M1, b M2, eq func(V1, V2) bool) bool {
	return std.EqualFunc(a, b, eq)
}
func Insert[M ~map[K]V, K comparable, V any](m M, seq iter.Seq2[K, V]) { std.Insert(m, seq) }
