package core

import (
	"cmp"
	"fmt"
	"reflect"
	"sort"
)

// Map iteration order is owned by the explorer.
const (
	OrderAsc    = 0
	OrderDesc   = 1
	OrderChoose = 2 // every order is an explicit choice (up to 4 keys; rotations and reversals beyond)
)

var MapOrder = OrderAsc

// names gives pointers a deterministic rank (for maps keyed by pointers).
var names = map[any]int{}

func NameObject(p any, rank int) { names[p] = rank }
func ResetNames()                { clear(names) }

type MapEntry[K comparable, V any] struct {
	K K
	m map[K]V
	v V
}

// Live reports whether the key is still in the map (deleted entries are not visited by range).
func (e *MapEntry[K, V]) Live() bool {
	if e.K != e.K {
		return len(e.m) > 0
	}
	_, ok := e.m[e.K]
	return ok
}

func (e *MapEntry[K, V]) V() V {
	if e.K != e.K {
		return e.v
	}
	return e.m[e.K]
}

func lessKey(a, b any) bool {
	switch x := a.(type) {
	case int:
		if y, ok := b.(int); ok {
			return x < y
		}
	case int64:
		if y, ok := b.(int64); ok {
			return x < y
		}
	case uint64:
		if y, ok := b.(uint64); ok {
			return x < y
		}
	case string:
		if y, ok := b.(string); ok {
			return x < y
		}
	case float64:
		if y, ok := b.(float64); ok {
			return cmp.Less(x, y)
		}
	}
	ra, oka := names[a]
	rb, okb := names[b]
	if oka && okb {
		return ra < rb
	}
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	if !va.IsValid() || !vb.IsValid() {
		return !va.IsValid() && vb.IsValid()
	}
	if va.Kind() == vb.Kind() {
		switch va.Kind() {
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			return va.Int() < vb.Int()
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
			return va.Uint() < vb.Uint()
		case reflect.Pointer:
			return va.Pointer() < vb.Pointer()
		case reflect.String:
			return va.String() < vb.String()
		case reflect.Float32, reflect.Float64:
			return cmp.Less(va.Float(), vb.Float())
		}
	}
	return fmt.Sprintf("%T %v", a, a) < fmt.Sprintf("%T %v", b, b)
}

// MapEntries lists the entries of m in the explorer's order.
func MapEntries[M ~map[K]V, K comparable, V any](m M) []MapEntry[K, V] {
	if len(m) == 0 {
		return nil
	}
	addSteps(len(m))
	r := make([]MapEntry[K, V], 0, len(m))
	for k, v := range m {
		r = append(r, MapEntry[K, V]{K: k, m: m, v: v})
	}
	if len(r) == 1 {
		return r
	}
	if ik, ok := any(r).([]MapEntry[int, V]); ok {
		sort.Slice(r, func(i, j int) bool { return ik[i].K < ik[j].K })
	} else {
		sort.Slice(r, func(i, j int) bool { return lessKey(r[i].K, r[j].K) })
	}
	switch MapOrder {
	case OrderDesc:
		for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
			r[i], r[j] = r[j], r[i]
		}
	case OrderChoose:
		n := len(r)
		if n <= 4 {
			for i := 0; i < n-1; i++ {
				j := i + Choose(n-i, false)
				x := r[j]
				copy(r[i+1:j+1], r[i:j])
				r[i] = x
			}
		} else if c := Choose(4, false); c > 0 {
			switch c {
			case 1:
				for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
					r[i], r[j] = r[j], r[i]
				}
			case 2:
				r = append(append([]MapEntry[K, V]{}, r[n/2:]...), r[:n/2]...)
			case 3:
				r = append(append([]MapEntry[K, V]{}, r[1:]...), r[0])
			}
		}
	}
	return r
}
