// Package maps stands in for the order-dependent part of the standard package.
package maps

import "github.com/zijiren233/gencontainer/zz_verif/vrt/core"

func DeleteFunc[M ~map[K]V, K comparable, V any](m M, del func(K, V) bool) {
	for _, e := range core.MapEntries(m) {
		if e.Live() && del(e.K, e.V()) {
			delete(m, e.K)
		}
	}
}
func Keys[M ~map[K]V, K comparable, V any](m M) func(yield func(K) bool) {
	return func(yield func(K) bool) {
		for _, e := range core.MapEntries(m) {
			if e.Live() && !yield(e.K) {
				return
			}
		}
	}
}
func Values[M ~map[K]V, K comparable, V any](m M) func(yield func(V) bool) {
	return func(yield func(V) bool) {
		for _, e := range core.MapEntries(m) {
			if e.Live() && !yield(e.V()) {
				return
			}
		}
	}
}
func All[M ~map[K]V, K comparable, V any](m M) func(yield func(K, V) bool) {
	return func(yield func(K, V) bool) {
		for _, e := range core.MapEntries(m) {
			if e.Live() && !yield(e.K, e.V()) {
				return
			}
		}
	}
}
