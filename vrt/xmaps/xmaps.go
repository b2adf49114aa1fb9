// Package xmaps stands in for the order-dependent part of golang.org/x/exp/maps.
package xmaps

import "github.com/zijiren233/gencontainer/zz_verif/vrt/core"

func Keys[M ~map[K]V, K comparable, V any](m M) []K {
	r := make([]K, 0, len(m))
	for _, e := range core.MapEntries(m) {
		r = append(r, e.K)
	}
	return r
}
func Values[M ~map[K]V, K comparable, V any](m M) []V {
	r := make([]V, 0, len(m))
	for _, e := range core.MapEntries(m) {
		r = append(r, e.V())
	}
	return r
}
func DeleteFunc[M ~map[K]V, K comparable, V any](m M, del func(K, V) bool) {
	for _, e := range core.MapEntries(m) {
		if e.Live() && del(e.K, e.V()) {
			delete(m, e.K)
		}
	}
}
