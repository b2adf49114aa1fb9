package main

import (
	"cmp"
	"fmt"
	"math"
	"slices"
	"strings"

	"github.com/zijiren233/gencontainer/genmap"
	"github.com/zijiren233/gencontainer/lhashmap"
	"github.com/zijiren233/gencontainer/rwmap"
	"github.com/zijiren233/gencontainer/set"
)

// Keys that do not equal themselves: a built-in map keeps every NaN stored as an entry of its own, which no lookup or
// delete finds, which iteration presents, and which only clear removes. All call sequences up to a depth over the keys
// NaN and 1, against a built-in map.

type nanKV struct {
	k float64
	v int
}

func nanSort(s []nanKV) []nanKV {
	slices.SortFunc(s, func(a, b nanKV) int {
		if c := cmp.Compare(a.k, b.k); c != 0 {
			return c
		}
		return a.v - b.v
	})
	return s
}

func nanSame(what string, got, want []nanKV) error {
	nanSort(got)
	nanSort(want)
	if len(got) != len(want) {
		return fmt.Errorf("%s: %v, want %v", what, got, want)
	}
	for i := range got {
		if cmp.Compare(got[i].k, want[i].k) != 0 || got[i].v != want[i].v {
			return fmt.Errorf("%s: %v, want %v", what, got, want)
		}
	}
	return nil
}

func nanMap(m map[float64]int) (r []nanKV) {
	for k, v := range m {
		r = append(r, nanKV{k, v})
	}
	return
}

// nanSeqs runs f on every sequence of depth calls out of names.
func nanSeqs(c *Ctx, names []string, depth int, f func(seq []int) error) {
	seq := make([]int, depth)
	for {
		if !c.Case(func() string {
			var b []string
			for _, o := range seq {
				b = append(b, names[o])
			}
			return strings.Join(b, "; ")
		}, func() error { c.Trans += int64(depth); return f(seq) }) {
			return
		}
		i := depth - 1
		for i >= 0 && seq[i] == len(names)-1 {
			seq[i] = 0
			i--
		}
		if i < 0 {
			return
		}
		seq[i]++
	}
}

func nanJob(id string, quick, thorough int, names []string, f func(seq []int) error) {
	extraJobs[id] = append(extraJobs[id], func(t bool) []Job {
		d := quick
		if t {
			d = thorough
		}
		return []Job{{Name: "keys not equal to themselves", Run: func(c *Ctx) { nanSeqs(c, names, d, f) }}}
	})
}

var nan = math.NaN()

func init() {
	ks := []float64{nan, 1}
	nanJob("C04", 4, 5, []string{"Store(NaN)", "Store(1)", "LoadOrStore(NaN)", "LoadOrStore(1)", "Load(NaN)", "Load(1)", "LoadAndDelete(NaN)", "LoadAndDelete(1)", "CompareAndDelete(NaN)", "CompareAndSwap(NaN)", "Swap(NaN)", "Clear", "Range"}, func(seq []int) error {
		var m rwmap.RWMap[float64, int]
		w := map[float64]int{}
		see := func() error {
			var got []nanKV
			m.Range(func(k float64, v int) bool { got = append(got, nanKV{k, v}); return true })
			return nanSame("Range", got, nanMap(w))
		}
		for i, o := range seq {
			switch o {
			case 0, 1:
				m.Store(ks[o], i)
				w[ks[o]] = i
			case 2, 3:
				k := ks[o-2]
				a, l := m.LoadOrStore(k, i)
				wa, wl := w[k]
				if !wl {
					wa = i
					w[k] = i
				}
				if a != wa || l != wl {
					return fmt.Errorf("LoadOrStore = %v, %v, want %v, %v", a, l, wa, wl)
				}
			case 4, 5:
				a, l := m.Load(ks[o-4])
				wa, wl := w[ks[o-4]]
				if a != wa || l != wl {
					return fmt.Errorf("Load = %v, %v, want %v, %v", a, l, wa, wl)
				}
			case 6, 7:
				a, l := m.LoadAndDelete(ks[o-6])
				wa, wl := w[ks[o-6]]
				delete(w, ks[o-6])
				if a != wa || l != wl {
					return fmt.Errorf("LoadAndDelete = %v, %v, want %v, %v", a, l, wa, wl)
				}
			case 8:
				for j := 0; j <= i; j++ {
					if m.CompareAndDelete(nan, j) {
						return fmt.Errorf("CompareAndDelete(NaN) found an entry")
					}
				}
			case 9:
				for j := 0; j <= i; j++ {
					if m.CompareAndSwap(nan, j, 99) {
						return fmt.Errorf("CompareAndSwap(NaN) found an entry")
					}
				}
			case 10:
				if v, l := m.Swap(nan, i); l || v != 0 {
					return fmt.Errorf("Swap(NaN) = %v, %v", v, l)
				}
				w[nan] = i
			case 11:
				m.Clear()
				clear(w)
			case 12:
				if err := see(); err != nil {
					return err
				}
			}
			if n := m.Len(); n != int64(len(w)) {
				return fmt.Errorf("Len() = %d, want %d", n, len(w))
			}
		}
		if err := see(); err != nil {
			return err
		}
		if n := m.SlowLen(); n != int64(len(w)) {
			return fmt.Errorf("SlowLen() = %d, want %d", n, len(w))
		}
		return nil
	})
	nanJob("C23", 4, 5, []string{"Store(NaN)", "Store(1)", "Delete(NaN)", "Delete(1)", "LoadOrStore(NaN)", "LoadOrStoreFunc(NaN)", "LoadAndDelete(NaN)", "LoadAndStore(NaN)", "Clear", "= Clone()", "CopyFrom(other)", "CopyTo(other)", "DeleteFunc"}, func(seq []int) error {
		m, w := genmap.New[float64, int](), map[float64]int{}
		other := map[float64]int{nan: 7, 1: 8, 2: 9}
		for i, o := range seq {
			switch o {
			case 0, 1:
				m.Store(ks[o], i)
				w[ks[o]] = i
			case 2, 3:
				m.Delete(ks[o-2])
				delete(w, ks[o-2])
			case 4:
				if a, l := m.LoadOrStore(nan, i); a != i || l {
					return fmt.Errorf("LoadOrStore(NaN) = %v, %v", a, l)
				}
				w[nan] = i
			case 5:
				n := 0
				if a, l := m.LoadOrStoreFunc(nan, func() int { n++; return i }); a != i || l || n != 1 {
					return fmt.Errorf("LoadOrStoreFunc(NaN) = %v, %v after %d calls", a, l, n)
				}
				w[nan] = i
			case 6:
				if a, l := m.LoadAndDelete(nan); a != 0 || l {
					return fmt.Errorf("LoadAndDelete(NaN) = %v, %v", a, l)
				}
			case 7:
				if a, l := m.LoadAndStore(nan, i); a != 0 || l {
					return fmt.Errorf("LoadAndStore(NaN) = %v, %v", a, l)
				}
				w[nan] = i
			case 8:
				m.Clear()
				clear(w)
			case 9:
				m = m.Clone()
			case 10:
				m.CopyFrom(other)
				for k, v := range other {
					w[k] = v
				}
			case 11:
				d := genmap.New[float64, int]()
				m.CopyTo(d)
				if err := nanSame("CopyTo", nanMap(d), nanMap(w)); err != nil {
					return err
				}
			case 12:
				n := len(m)
				calls := 0
				m.DeleteFunc(func(k float64, v int) bool { calls++; return v > 1 })
				if calls != n {
					return fmt.Errorf("DeleteFunc called its function %d times for %d entries", calls, n)
				}
				for k, v := range w {
					if v > 1 {
						delete(w, k)
					}
				}
			}
			if m.Len() != len(w) {
				return fmt.Errorf("Len() = %d, want %d", m.Len(), len(w))
			}
			_, ok := m.Load(nan)
			if ok {
				return fmt.Errorf("Load(NaN) found an entry")
			}
		}
		var got []nanKV
		if !m.Range(func(k float64, v int) bool { got = append(got, nanKV{k, v}); return true }) {
			return fmt.Errorf("Range did not complete")
		}
		if err := nanSame("Range", got, nanMap(w)); err != nil {
			return err
		}
		if err := nanSame("Map", nanMap(m.Map()), nanMap(w)); err != nil {
			return err
		}
		keys, vals := m.Keys(), m.Values()
		slices.Sort(keys)
		slices.Sort(vals)
		var wk []float64
		var wv []int
		hasNaN := false
		for k, v := range w {
			wk, wv = append(wk, k), append(wv, v)
			hasNaN = hasNaN || k != k
		}
		slices.Sort(wk)
		slices.Sort(wv)
		if fmt.Sprint(keys) != fmt.Sprint(wk) || fmt.Sprint(vals) != fmt.Sprint(wv) {
			return fmt.Errorf("Keys() = %v, Values() = %v, want %v, %v", keys, vals, wk, wv)
		}
		if eq := m.EqualFunc(m, func(a, b int) bool { return a == b }); eq == hasNaN {
			return fmt.Errorf("EqualFunc with itself = %v", eq)
		}
		return nil
	})
	nanJob("C22", 4, 5, []string{"Push(NaN)", "Push(1, NaN, 1)", "Insert(NaN)", "Insert(1)", "Remove(NaN)", "Remove(1)", "ContainAndRemove(NaN)", "Clear", "= Clone()", "CopyFrom(other)", "= Union(other)", "= Difference(other)", "= Intersection(other)", "= SymmetricDifference(other)"}, func(seq []int) error {
		s, w := set.New[float64](), map[float64]int{}
		other := set.New[float64]().Push(nan, 1, 2)
		for _, o := range seq {
			old := w
			switch o {
			case 0:
				s.Push(nan)
				w[nan] = 0
			case 1:
				s.Push(1, nan, 1)
				w[nan] = 0
				w[1] = 0
			case 2:
				if !s.Insert(nan) {
					return fmt.Errorf("Insert(NaN) = false")
				}
				w[nan] = 0
			case 3:
				_, had := w[1]
				if s.Insert(1) == had {
					return fmt.Errorf("Insert(1) = %v", had)
				}
				w[1] = 0
			case 4:
				if s.Remove(nan) {
					return fmt.Errorf("Remove(NaN) = true")
				}
			case 5:
				_, had := w[1]
				if s.Remove(1) != had {
					return fmt.Errorf("Remove(1) = %v", !had)
				}
				delete(w, 1)
			case 6:
				if s.ContainAndRemove(nan) {
					return fmt.Errorf("ContainAndRemove(NaN) = true")
				}
			case 7:
				s.Clear()
				clear(w)
				if !s.IsEmpty() {
					return fmt.Errorf("not empty after Clear: %v", s.Slice())
				}
			case 8:
				s = s.Clone()
			case 9:
				s.CopyFrom(other)
				w[nan], w[1], w[2] = 0, 0, 0
			case 10:
				s = s.Union(other)
				w[nan], w[1], w[2] = 0, 0, 0
			case 11, 12, 13: // a NaN is in no other set
				switch o {
				case 11:
					s = s.Difference(other)
				case 12:
					s = s.Intersection(other)
				case 13:
					s = s.SymmetricDifference(other)
				}
				w = map[float64]int{}
				for k := range old {
					if _, in := other[k]; in == (o == 12) {
						w[k] = 0
					}
				}
				if o == 13 {
					for k := range other {
						if _, in := old[k]; !in {
							w[k] = 0
						}
					}
				}
			}
			if s.Len() != len(w) || s.IsEmpty() != (len(w) == 0) || s.Contain(nan) {
				return fmt.Errorf("Len() = %d, want %d; IsEmpty() = %v; Contain(NaN) = %v", s.Len(), len(w), s.IsEmpty(), s.Contain(nan))
			}
		}
		var got []nanKV
		s.Range(func(k float64) bool { got = append(got, nanKV{k, 0}); return true })
		if err := nanSame("Range", got, nanMap(w)); err != nil {
			return err
		}
		sl := s.Slice()
		var gs []nanKV
		for _, k := range sl {
			gs = append(gs, nanKV{k, 0})
		}
		return nanSame("Slice", gs, nanMap(w))
	})
	nanJob("C18", 5, 6, []string{"Store(NaN)", "Store(1)", "Load(NaN)", "Load(1)", "Remove(NaN)", "Remove(1)", "Clear", "Store(2)"}, func(seq []int) error {
		m := lhashmap.New[float64, int]()
		var w []nanKV // front first
		find := func(k float64) int { return slices.IndexFunc(w, func(e nanKV) bool { return e.k == k }) }
		for i, o := range seq {
			switch o {
			case 0, 1, 7:
				k := []float64{nan, 1, 0, 0, 0, 0, 0, 2}[o]
				m.Store(k, i)
				if j := find(k); j >= 0 {
					w = slices.Delete(w, j, j+1)
				}
				w = slices.Insert(w, 0, nanKV{k, i})
			case 2, 3:
				k := ks[o-2]
				v, ok := m.Load(k)
				j := find(k)
				if ok != (j >= 0) || (ok && v != w[j].v) || (!ok && v != 0) {
					return fmt.Errorf("Load(%v) = %v, %v", k, v, ok)
				}
				if j >= 0 {
					e := w[j]
					w = slices.Insert(slices.Delete(w, j, j+1), 0, e)
				}
			case 4, 5:
				m.Remove(ks[o-4])
				if j := find(ks[o-4]); j >= 0 {
					w = slices.Delete(w, j, j+1)
				}
			case 6:
				m.Clear()
				w = nil
			}
			if m.Len() != len(w) {
				return fmt.Errorf("Len() = %d, want %d", m.Len(), len(w))
			}
		}
		var got []nanKV
		m.Range(func(k float64, v int) bool { got = append(got, nanKV{k, v}); return true })
		if fmt.Sprint(got) != fmt.Sprint(w) && len(got)+len(w) > 0 {
			return fmt.Errorf("Range gives %v, want %v", got, w)
		}
		return nil
	})
}
