// Package simmaps stands in for package maps: what walks a map there is
// walked in an order of the simulator's choice.
package simmaps

import (
	"iter"
	"maps"

	"verifsim/hook"
)

func All[Map ~map[K]V, K comparable, V any](m Map) iter.Seq2[K, V] { return hook.MapRange(m) }

func Keys[Map ~map[K]V, K comparable, V any](m Map) iter.Seq[K] {
	return func(yield func(K) bool) {
		for k := range hook.MapRange(m) {
			if !yield(k) {
				return
			}
		}
	}
}

func Values[Map ~map[K]V, K comparable, V any](m Map) iter.Seq[V] {
	return func(yield func(V) bool) {
		for _, v := range hook.MapRange(m) {
			if !yield(v) {
				return
			}
		}
	}
}

func Insert[Map ~map[K]V, K comparable, V any](m Map, seq iter.Seq2[K, V]) { maps.Insert(m, seq) }
func Collect[K comparable, V any](seq iter.Seq2[K, V]) map[K]V             { return maps.Collect(seq) }
func Equal[M1, M2 ~map[K]V, K, V comparable](m1 M1, m2 M2) bool            { return maps.Equal(m1, m2) }
func EqualFunc[M1 ~map[K]V1, M2 ~map[K]V2, K comparable, V1, V2 any](m1 M1, m2 M2, eq func(V1, V2) bool) bool {
	return maps.EqualFunc(m1, m2, eq)
}
func Clone[M ~map[K]V, K comparable, V any](m M) M { return maps.Clone(m) }
func Copy[M1 ~map[K]V, M2 ~map[K]V, K comparable, V any](dst M1, src M2) {
	maps.Copy(dst, src)
}
func DeleteFunc[M ~map[K]V, K comparable, V any](m M, del func(K, V) bool) {
	for k, v := range hook.MapRange(m) {
		if del(k, v) {
			delete(m, k)
		}
	}
}
