package main

import (
	"encoding/binary"
	"hash/maphash"
	"math"
	"reflect"
	"sort"
	"time"
	"unsafe"
)

// FP is a canonical digest of an object graph: pointers are replaced by the order in which the walk meets
// them, map entries are visited in key order, slices contribute length, capacity and elements. Two states
// with the same digest are isomorphic as heap graphs (up to the digest's 128 bits), so they have the same
// futures.
type FP struct {
	buf  []byte
	seen map[fpKey]uint64
	// Now, if set, makes points in time relative to it: int64 values (and time.Time values) that look like
	// dates of this century, in nanoseconds or milliseconds. Points further than Horizon in the past count
	// as equally old, points more than a few months in the future as equally far.
	Now, Horizon int64
}

// Rel adds a point in time (nanoseconds), relative to Now.
func (f *FP) Rel(ns int64) {
	f.u(7)
	f.u(uint64(min(max(ns-f.Now, -f.Horizon), 1e16)))
}

func (f *FP) date(x int64) bool {
	switch {
	case x >= 16e17 && x <= 90e17:
		f.Rel(x)
		return true
	case x >= 16e11 && x <= 12e12, x <= -1e12 && x >= -1e13:
		f.u(8)
		f.u(uint64(min(max(x-f.Now/1e6, -f.Horizon/1e6-1), 1e10)))
		return true
	}
	return false
}

type fpKey struct {
	p unsafe.Pointer
	t reflect.Type
}

type Digest [2]uint64

var fpSeed1, fpSeed2 = maphash.MakeSeed(), maphash.MakeSeed()

var timeType = reflect.TypeOf(time.Time{})

func NewFP() *FP { return &FP{seen: map[fpKey]uint64{}} }

func (f *FP) u(x uint64) { f.buf = binary.AppendUvarint(f.buf, x) }

func (f *FP) Sum() Digest {
	return Digest{maphash.Bytes(fpSeed1, f.buf), maphash.Bytes(fpSeed2, f.buf)}
}

func (f *FP) Reset() { f.Now, f.buf = 0, f.buf[:0]; clear(f.seen) }

// Root adds what p points to.
func (f *FP) Root(p any) { f.val(reflect.ValueOf(p)) }

func (f *FP) reg(p unsafe.Pointer, t reflect.Type) (uint64, bool) {
	k := fpKey{p, t}
	if n, ok := f.seen[k]; ok {
		return n, true
	}
	n := uint64(len(f.seen) + 1)
	f.seen[k] = n
	return n, false
}

func (f *FP) val(v reflect.Value) {
	if !v.IsValid() {
		f.u(0)
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		if v.Bool() {
			f.u(1)
		} else {
			f.u(0)
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if f.Now != 0 && f.date(v.Int()) {
			return
		}
		f.u(uint64(v.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		f.u(v.Uint())
	case reflect.Float32, reflect.Float64:
		f.u(math.Float64bits(v.Float()))
	case reflect.Complex64, reflect.Complex128:
		c := v.Complex()
		f.u(math.Float64bits(real(c)))
		f.u(math.Float64bits(imag(c)))
	case reflect.String:
		s := v.String()
		f.u(uint64(len(s)))
		f.buf = append(f.buf, s...)
	case reflect.Pointer:
		if v.IsNil() {
			f.u(0)
			return
		}
		e := v.Type().Elem()
		n, old := f.reg(v.UnsafePointer(), e)
		f.u(n)
		if !old {
			f.inner(v.Elem(), true)
		}
	case reflect.UnsafePointer, reflect.Chan, reflect.Func:
		if v.IsNil() {
			f.u(0)
		} else if v.Kind() == reflect.Func {
			f.u(1)
		} else {
			n, _ := f.reg(v.UnsafePointer(), v.Type())
			f.u(n)
		}
	case reflect.Interface:
		if v.IsNil() {
			f.u(0)
			return
		}
		e := v.Elem()
		s := e.Type().String()
		f.u(uint64(len(s)))
		f.buf = append(f.buf, s...)
		f.val(e)
	case reflect.Slice:
		if v.IsNil() {
			f.u(0)
			return
		}
		f.u(uint64(v.Len()) + 1)
		f.u(uint64(v.Cap()))
		if v.Cap() > 0 {
			// aliasing: which array, as far as its first element tells
			n, _ := f.reg(v.UnsafePointer(), v.Type())
			f.u(n)
		}
		for i := 0; i < v.Len(); i++ {
			f.inner(v.Index(i), false)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			f.inner(v.Index(i), false)
		}
	case reflect.Map:
		if v.IsNil() {
			f.u(0)
			return
		}
		n, old := f.reg(v.UnsafePointer(), v.Type())
		f.u(n)
		if !old {
			f.mapv(v)
		}
	case reflect.Struct:
		f.inner(v, false)
	}
}

// inner walks a value in place; nested addressable structs are registered so that interior pointers are
// recognised.
func (f *FP) inner(v reflect.Value, registered bool) {
	if v.Kind() != reflect.Struct {
		f.val(v)
		return
	}
	if !registered && v.CanAddr() {
		n, old := f.reg(unsafe.Pointer(v.UnsafeAddr()), v.Type())
		if old {
			f.u(n)
			return
		}
		f.u(0)
	}
	if f.Now != 0 && v.Type() == timeType && v.CanAddr() {
		f.Rel((*time.Time)(unsafe.Pointer(v.UnsafeAddr())).UnixNano())
		return
	}
	for i := 0; i < v.NumField(); i++ {
		f.inner(v.Field(i), false)
	}
}

func (f *FP) mapv(v reflect.Value) {
	f.u(uint64(v.Len()))
	type kv struct {
		k, v reflect.Value
		s    string
	}
	es := make([]kv, 0, v.Len())
	it := v.MapRange()
	kk := v.Type().Key().Kind()
	for it.Next() {
		e := kv{k: it.Key(), v: it.Value()}
		switch kk {
		case reflect.Int, reflect.Int64, reflect.Int32, reflect.String:
		default:
			g := &FP{seen: map[fpKey]uint64{}}
			// pointers already numbered keep their number, so distinct keys sort deterministically
			for p, n := range f.seen {
				g.seen[p] = n
			}
			g.val(e.k)
			e.s = string(g.buf)
		}
		es = append(es, e)
	}
	sort.Slice(es, func(i, j int) bool {
		switch kk {
		case reflect.Int, reflect.Int64, reflect.Int32:
			return es[i].k.Int() < es[j].k.Int()
		case reflect.String:
			return es[i].k.String() < es[j].k.String()
		}
		return es[i].s < es[j].s
	})
	for _, e := range es {
		f.val(e.k)
		f.val(e.v)
	}
}
