package main

import (
	"errors"
	"fmt"
	"math"
	"time"

	"github.com/zijiren233/gencontainer/rwmap"
	"github.com/zijiren233/gencontainer/synccache"
)

// Which values count as the same: the conditional methods compare with ==, for every type of value.

type valPair struct {
	p *int
	f float64
}

type valProbe interface {
	rw(c *Ctx) bool
	sc(c *Ctx, callback bool) bool
}

type valSet[V comparable] struct {
	name string
	vals []V
	same func(a, b V) bool // the very same value, told apart even where == is not reflexive
}

// rwPrep are the ways to bring key 1 -> v into a map, covering where the entry lives.
func valPrep[V comparable](how int, v, other V) *rwmap.RWMap[int, V] {
	m := &rwmap.RWMap[int, V]{}
	switch how {
	case 0: // only in the dirty map
		m.Store(1, v)
	case 1: // promoted
		m.Store(1, v)
		m.Range(func(int, V) bool { return true })
	case 2: // in both maps
		m.Store(1, v)
		m.Range(func(int, V) bool { return true })
		m.Store(2, other)
	case 3: // deleted, expunged and stored again
		m.Store(1, other)
		m.Range(func(int, V) bool { return true })
		m.Delete(1)
		m.Store(2, other)
		m.Store(1, v)
	}
	return m
}

func (s valSet[V]) rw(c *Ctx) bool {
	for how := 0; how < 4; how++ {
		for i, v := range s.vals {
			for j, w := range s.vals {
				for k, x := range s.vals {
					if !c.Case(func() string {
						return fmt.Sprintf("rwmap of %s: value %d stored (way %d), value %d expected, value %d new", s.name, i, how, j, k)
					}, func() error {
						c.Trans++
						m := valPrep(how, v, x)
						want := v == w
						if got := m.CompareAndSwap(1, w, x); got != want {
							return fmt.Errorf("CompareAndSwap gives %v, == gives %v", got, want)
						}
						now := v
						if want {
							now = x
						}
						if g, ok := m.Load(1); !ok || !s.same(g, now) {
							return fmt.Errorf("after CompareAndSwap (%v) the map holds (%v, %v), want %v", want, g, ok, now)
						}
						m = valPrep(how, v, x)
						n := m.Len()
						if got := m.CompareAndDelete(1, w); got != want {
							return fmt.Errorf("CompareAndDelete gives %v, == gives %v", got, want)
						}
						if want {
							n--
						}
						if g, ok := m.Load(1); ok == want || (ok && !s.same(g, v)) || m.Len() != n {
							return fmt.Errorf("after CompareAndDelete (%v) the map holds (%v, %v), Len %d", want, g, ok, m.Len())
						}
						return nil
					}) {
						return false
					}
				}
			}
		}
	}
	return true
}

func (s valSet[V]) sc(c *Ctx, callback bool) bool {
	for i, v := range s.vals {
		for j, w := range s.vals {
			for age := 0; age < 2; age++ {
				if !c.Case(func() string {
					return fmt.Sprintf("synccache of %s: value %d stored, value %d expected, expired: %v", s.name, i, j, age == 1)
				}, func() error {
					c.Trans++
					var calls []V
					var conf []synccache.SyncCacheConfig[string, V]
					if callback {
						conf = append(conf, synccache.WithDeletedCallback[string, V](func(v V) { calls = append(calls, v) }))
					}
					k := synccache.NewSyncCache[string, V](time.Second, conf...)
					defer k.Close()
					life := time.Hour
					if age == 1 {
						life = -time.Hour
					}
					k.Store("k", v, life)
					want := v == w && age == 0
					if got := k.CompareValueAndDelete("k", w); got != want {
						return fmt.Errorf("CompareValueAndDelete gives %v, want %v", got, want)
					}
					e, ok := k.Load("k")
					if ok != (!want && age == 0) || (ok && !s.same(e.Value(), v)) {
						return fmt.Errorf("after CompareValueAndDelete (%v) the entry is there: %v", want, ok)
					}
					if callback && (len(calls) > 1 || (len(calls) == 1) != (want || age == 1) || (len(calls) == 1 && !s.same(calls[0], v))) {
						return fmt.Errorf("callbacks with %v", calls)
					}
					return nil
				}) {
					return false
				}
			}
		}
	}
	return true
}

func eqSame[V comparable](a, b V) bool { return a == b }

func valSets() []valProbe {
	x, y, z := 1, 1, 2
	e1, e2 := errors.New("e"), errors.New("e")
	ch1, ch2 := make(chan int), make(chan int)
	nan := math.NaN()
	fsame := func(a, b float64) bool { return math.Float64bits(a) == math.Float64bits(b) }
	return []valProbe{
		valSet[*int]{"*int", []*int{&x, &y, &z, nil}, eqSame[*int]},
		valSet[float64]{"float64", []float64{0, math.Copysign(0, -1), nan, 1}, fsame},
		valSet[any]{"any", []any{nil, 1, int64(1), 1.0, "1", &x, &y, valPair{&x, 0}, valPair{&y, 0}, [1]*int{&x}, [1]*int{&y}, e1, e2}, eqSame[any]},
		valSet[error]{"error", []error{nil, e1, e2}, eqSame[error]},
		valSet[valPair]{"struct with pointer and float", []valPair{{&x, 0}, {&y, 0}, {&x, math.Copysign(0, -1)}, {&x, nan}, {}}, func(a, b valPair) bool { return a.p == b.p && fsame(a.f, b.f) }},
		valSet[[2]float64]{"[2]float64", [][2]float64{{}, {0, math.Copysign(0, -1)}, {nan, 1}, {1, nan}}, func(a, b [2]float64) bool { return fsame(a[0], b[0]) && fsame(a[1], b[1]) }},
		valSet[chan int]{"chan", []chan int{ch1, ch2, nil}, eqSame[chan int]},
		valSet[string]{"string", []string{"", "a", "A", "a ", string([]byte{'a'})}, eqSame[string]},
		valSet[struct{}]{"struct{}", []struct{}{{}}, eqSame[struct{}]},
		valSet[uint8]{"uint8", []uint8{0, 1, 255}, eqSame[uint8]},
		valSet[bool]{"bool", []bool{false, true}, eqSame[bool]},
		valSet[complex128]{"complex128", []complex128{0, 1, 1i, 1 + 1i}, eqSame[complex128]},
	}
}

func rwValuesJob() Job {
	return Job{Name: "value equality", Run: func(c *Ctx) {
		for _, s := range valSets() {
			if !s.rw(c) {
				return
			}
		}
	}}
}

func scValuesJob(callback bool) Job {
	return Job{Name: "value equality", Run: func(c *Ctx) {
		for _, s := range valSets() {
			if !s.sc(c, callback) {
				return
			}
		}
	}}
}
